"""Scenario families of the RTCM to SBP converter (P13-P20)."""
import random, struct
import rtcm2sbp as q, rtcmgen as g, ubxsbp as x, p01, vf
WEEK, DAY = q.WEEK, q.DAY
ENDS = ["eof", "error"]
def ending(r, b): return 0 if b["ending"] == "eof" else r.choice((-1, -2, -5, -100))
# ---- framing
FK = ["obs", "msm", "text", "pos", "unknown", "badsum", "badbyte", "truncated", "hugelen", "zero", "nested", "noise", "syncs", "short", "biglen", "res"]
FC = ["none", "edge", "preamble", "header", "body", "crc", "each"]
def noise(r, n): return bytes(r.choice((0, 255, 0xd3, r.randrange(256))) for _ in range(n))
def fitem(r, k, T):
    """T: [milliseconds], advanced by observations"""
    if k == "obs": T[0] += 1000; return q.frame(q.legacy(r, r.choice((1002, 1004)), 7, T[0], 0, nsat=r.choice((0, 1, 3))))
    if k == "msm": T[0] += 1000; return q.frame(q.msm(r, r.choice((1074, 1075, 1077, 1094, 1097)), 7, T[0], 0, weird=0))
    if k == "text": return q.frame(q.m1029(r, r.randrange(4096), bytes(r.randrange(32, 127) for _ in range(r.randrange(30)))))
    if k == "pos": return q.frame(q.station(r, r.choice((1005, 1006)), r.randrange(4096)))
    if k == "unknown": return q.frame(bytes([r.choice((0x3f, 0xff, 0x40, 0x00)), r.randrange(256)]) + bytes(r.randrange(256) for _ in range(r.choice((0, 1, 20, 200)))))
    if k == "badsum": return q.frame(q.station(r, 1005, 5), bad=1 << r.randrange(24))
    if k == "badbyte":
        f = bytearray(q.frame(q.station(r, 1006, 5))); f[r.choice((1, 2, r.randrange(3, len(f) - 3)))] ^= 1 << r.randrange(8)
        return bytes(f)
    if k == "truncated": f = q.frame(q.station(r, 1006, 5)); return f[:r.randrange(1, len(f))]
    if k == "hugelen": return b"\xd3" + bytes((r.choice((3, 0xff)), r.choice((0xff, 0xfe, 0x00)))) + noise(r, r.choice((0, 1, 5, 20)))
    if k == "zero": return b"\xd3" + bytes((r.choice((0, 0xfc)), 0)) + r.choice((b"", b"\x47\xea\x4b", noise(r, 3)))
    if k == "nested":
        f = q.frame(q.station(r, 1005, 9)); return q.frame(bytes([0x3f, 0xe0]) + noise(r, 3) + f, bad=r.choice((0, 0, 1)))
    if k == "noise": return noise(r, r.randrange(1, 30))
    if k == "syncs": return r.choice((b"\xd3", b"\xd3\xd3", b"\xd3\x00\xd3", b"\xd3\x00\x00\xd3", b"\xd3\x00\x13\xd3"))
    if k == "short": return q.frame(r.choice((b"\x3e", b"\x43", b"\x3e\xc0", b"\x3e\xd0", b"\x40\x50", b"\x43\x50\x00", b"\xfe\xb0")))
    if k == "biglen": return q.frame(bytes([0x3f, 0xf0]) + noise(r, r.choice((1018, 1019, 1020, 1021, 500))))
    if k == "res":  # the six bits between preamble and length
        b = q.station(r, 1005, r.randrange(4096)); h = b"\xd3" + bytes((r.randrange(1, 64) << 2 | len(b) >> 8, len(b) & 255)) + b
        return h + x.crc24_bytes(h).to_bytes(3, "big")
def fscript(r, b):
    s, cut, last, T = b"", [], 0, [r.randrange(1, 500000) * 1000 + 1000]
    t0 = T[0] // 1000
    def at(p):
        nonlocal last
        if p > last: cut.append(p - last); last = p
    for i in b["items"]:
        d = fitem(r, i["k"], T); a = len(s); s += d; e = len(s); c = i["c"]
        if c == "edge": at(a); at(e)
        if c == "preamble": at(a + 1)
        if c == "header": at(a + r.randrange(2, 6))
        if c == "body": at(a + r.randrange(1, len(d) + 1))
        if c == "crc": at(max(a + 1, e - r.choice((1, 2))))
        if c == "each" and len(d) < 400:
            for k in range(len(d)): at(a + k + 1)
        last = min(last, len(s))
    return q.scen(s, cut, ending(r, b), time=(2100, t0))

# ---- the life of a base station: observations, epochs, other messages
EK = ["gpsM", "gpsE", "gloM", "gloE", "msmM", "msmE", "msmSM", "msmSE", "stn", "bias", "desc", "big", "bigE", "empty", "emptyE", "noval", "other", "undecM", "undecE",
      "damaged", "ignored", "early", "text", "eph", "ssr"]
EC = ["0", "0", "0", "250", "1000", "3250", "6000", "600000"]
MSMT = [b + k for b in (1070, 1080, 1090, 1120) for k in (4, 5, 6, 7)]
def tow_of(t, wn, ms):
    c = q.cons(t) if t > 1070 else ("GLO" if t in (1010, 1012) else "GPS")
    return q.glo_tod(wn, ms) if c == "GLO" else q.bds_tow(ms) if c == "BDS" else ms
class Base:
    def __init__(s, r, wn, ms, stn): s.r, s.wn, s.ms, s.stn = r, wn, ms, stn
    def go(s, d):
        s.ms += d
        if s.ms >= WEEK: s.ms -= WEEK; s.wn += 1
        if s.ms < 0: s.ms += WEEK; s.wn -= 1
    def legacy(s, t, sync, **k): return q.frame(q.legacy(s.r, t, s.stn, tow_of(t, s.wn, s.ms), sync, **k))
    def msm(s, t, mult, **k): return q.frame(q.msm(s.r, t, s.stn, tow_of(t, s.wn, s.ms), mult, **k))
    def item(s, k):
        r = s.r
        if k in ("gpsM", "gpsE"): return s.legacy(r.choice((1002, 1004)), k == "gpsM")
        if k in ("gloM", "gloE"): return s.legacy(r.choice((1010, 1012)), k == "gloM")
        if k in ("msmM", "msmE"): return s.msm(r.choice(MSMT), k == "msmM")
        if k in ("msmSM", "msmSE"): return s.msm(r.choice((1104, 1105, 1107, 1114, 1116, 1117)), k == "msmSM")
        if k == "stn": return q.frame(q.station(r, r.choice((1005, 1006)), s.stn))
        if k == "bias": return q.frame(q.m1230(r, s.stn))
        if k == "desc": return q.frame(q.m1033(r, s.stn))
        if k in ("big", "bigE"):
            t = r.choice((1074, 1077, 1094, 1097)); c = q.cons(t)
            return s.msm(t, k == "big", sats=r.sample(range(q.NSAT[c]), 20), sigs=[v - 1 for v in r.sample(q.SIGS[c], 3)], dense=1.0, weird=0)
        if k == "empty": return s.legacy(r.choice((1004, 1012)), 1, nsat=0) if r.random() < 0.5 else s.msm(r.choice(MSMT), 1, sats=[], sigs=[], weird=0)
        if k == "emptyE": return s.legacy(r.choice((1004, 1012)), 0, nsat=0) if r.random() < 0.5 else s.msm(r.choice(MSMT), 0, sats=[], sigs=[], weird=0)
        if k == "noval": return s.legacy(r.choice((1004, 1012)), r.getrandbits(1), valid=0)
        if k == "other":
            o, s.stn = s.stn, r.choice((s.stn ^ 1, s.stn ^ 128, 4095 - s.stn, s.stn ^ 1 << r.randrange(12)))
            f = s.item(r.choice(("gpsM", "gpsE", "gloM", "msmM", "msmE", "stn", "bias", "desc")))
            if r.random() < 0.6: s.stn = o
            return f
        if k in ("undecM", "undecE"):
            b = q.msm(r, r.choice(MSMT), s.stn, s.ms, k == "undecM", weird=0)
            return q.frame(b[:r.choice((7, 8, 6, 20, len(b) - 3))])
        if k == "damaged": return q.frame(q.msm(r, r.choice(MSMT), s.stn, s.ms, 0), bad=r.randrange(1, 2**24))
        if k == "ignored": return s.legacy(r.choice((1001, 1003)), 0) if r.random() < 0.7 else q.frame(bytes((r.choice((0x3e, 0x3f)), r.choice((0xf0, 0x00, 0x70)))) + bytes(r.randrange(8, 30)))
        if k == "early":
            s.go(-1000); f = s.item(r.choice(("gpsM", "gpsE", "gloM", "gloE", "msmM", "msmE"))); s.go(1000)
            return f
        if k == "text": return q.frame(q.m1029(r, s.stn, b"hello"))
        if k == "eph": return q.frame(q.gps_eph(r, s.wn, s.ms, health=r.choice((0, 0, 1)))) if r.random() < 0.6 else q.frame(q.eph(r, r.choice((1020, 1045, 1042))))
        if k == "ssr": return q.frame(q.ssr(r, 1060, s.ms // 1000 % 604800, [3, 5], 1))
def times(r):
    """week, odd second: anywhere, at the end of a day or week"""
    wn = r.choice((2100, 2100, 1877, 2047, 2048, 2200, 1929, 1931))
    s = r.choice((r.randrange(1, 604000) | 1, r.randrange(1, 604000) | 1, 604799, 604795, 86399, 86395, 10799, 10801, 97201, 3, 86400 * 3 - 1, 86417, 10777, 10781))
    if wn == 1929: s = min(s, 590000)
    return wn, s | 1
def escript(r, b, known=None, opts=False, start=None):
    wn, s = start or times(r)
    B = Base(r, wn, s * 1000, r.choice((0, 1, 127, 128, 255, 1000, 2047, 4095)))
    how = known or r.choice(("w", "w", "w", "obs", "obs", "eph", "none"))
    out, k = [], {}
    if how in ("w", "obs"): k["time"] = (wn, s + r.choice((0, 0, -1, -7, 1)) if 10 < s < 604000 else s)
    if how == "obs": k["obs"] = 1
    if how == "eph": out.append(q.frame(q.gps_eph(r, wn, B.ms)))
    if opts:
        if r.random() < 0.5: k["mask"] = r.sample((0, 2, 3, 5, 4, 1), r.choice((1, 2)))
        if r.random() < 0.6: k["bias"] = [(c, r.choice((-640, -64, -3, -1, 1, 2, 32, 64, 5000))) for c in r.sample((0, 1, 2, 3, 4, 5, 6, 9, 10, 12, 13, 14, 15, 20, 21, 26, 27), r.choice((1, 2, 4)))]
        if r.random() < 0.6: k["glo"] = [r.choice((0, -64, 13, 100, -7)) for _ in range(4)]
    for i in b["items"]:
        B.go(int(i["c"])); out.append(B.item(i["k"]))
    st = b"".join(out)
    return q.scen(st, [len(f) for f in out] if r.random() < 0.7 else x.cuts(r, len(st)), ending(r, b), **k)
def label(b): return " ".join("%s+%s" % (i["k"], i["c"]) for i in b["items"]) + " " + b["ending"]
def ep(ctx, kinds, n, sim=None, steps=EC): return ctx.generate("FrameGen", p01.gen_cfg(sorted(set(kinds)), sorted(set(steps)), ENDS, n), **({"simulate": sim, "depth": n + 2} if sim else {}))

# ---- what single measurements become (P15)
CODES = (0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 47, 48, 49, 56, 57, 58)
def options(r):
    k = {}
    if r.random() < 0.4: k["mask"] = r.sample((0, 2, 3, 5, 4, 1), r.choice((1, 2)))
    if r.random() < 0.7: k["bias"] = [(c, r.choice((-640, -64, -3, -1, 1, 2, 32, 64, 5000))) for c in r.sample(CODES, r.choice((1, 2, 4, 12)))]
    if r.random() < 0.7: k["glo"] = [r.choice((0, -64, 13, 100, -7)) for _ in range(4)]
    return k
def measurement(r, t, opt):
    """one message of observations, alone; for GLONASS MSM4/6, channels learned from ephemerides first"""
    wn, s = times(r); B = Base(r, wn, s * 1000, r.randrange(4096)); out = []
    if q.g.MSM_PREF.get(t // 10) == "GLO" and r.random() < 0.7:
        for sv in r.sample(range(0, 30), 8): out.append(q.frame(q.eph(r, 1020, sat=sv)))
    out.append(B.legacy(t, 0) if t < 1070 else B.msm(t, 0, weird=0.15))
    return q.scen(b"".join(out), [], 0, time=(wn, s), **(options(r) if opt else {}))
def fixed_values(r):
    """every signal of every constellation, at plain and at extreme values"""
    out = []
    for t in (1074, 1075, 1076, 1077, 1084, 1085, 1086, 1087, 1094, 1097, 1124, 1127):
        c = q.cons(t)
        for lo in range(0, 32, 8): out.append((t, dict(sats=[r.randrange(q.NSAT[c]), r.randrange(min(30, q.NSAT[c]))], sigs=list(range(lo, lo + 8)), dense=1.0, weird=0)))
        for lo in range(0, 64, 16): out.append((t, dict(sats=list(range(lo, lo + 16)), sigs=[q.SIGS[c][0] - 1, q.SIGS[c][1] - 1], dense=1.0, weird=0)))
    res = []
    for t, k in out:
        wn, s = times(r); B = Base(r, wn, s * 1000, r.randrange(4096))
        res.append((q.scen(B.msm(t, 0, **k), [], 0, time=(wn, s)), "all signals or satellites of %d %s" % (t, k["sigs"][0] if len(k["sats"]) < 3 else k["sats"][0])))
    return res

F = {"GPS": (2, 1575.42e6), "GAL": (2, 1575.42e6), "BDS": (2, 1561.098e6)}
C = 299792458.0
def carries(r, n):
    """phases and Dopplers whose fraction of a cycle is just below, at and above the next whole one"""
    res = []
    near = lambda v: abs(v - round(v)) < 1 / 512 + 1 / 2048 and abs(abs(v - round(v)) - 1 / 512) > 1e-5
    def search(make, val):
        for _ in range(20000):
            a = make()
            if near(val(*a)): return a
    for _ in range(n):
        for c in sorted(F):
            sig, f = F[c]; base = {"GPS": 1070, "GAL": 1090, "BDS": 1120}[c]
            wn, s = times(r); B = Base(r, wn, s * 1000, r.randrange(4096))
            for t in (base + 5, base + 7):
                rr, d = search(lambda: (r.randrange(-900, 900), r.randrange(-16000, 16000)), lambda a, b: -(a + b * 1e-4) * f / C)
                res.append((q.scen(B.msm(t, 0, sats=[5], sigs=[sig - 1], dense=1, weird=0, rr=rr, dop=d), [], 0, time=(wn, s)), "Doppler carry %d" % t))
            for t in (base + 4, base + 5, base + 6, base + 7):
                hi = t % 10 in (6, 7)
                ro, mo, cp = search(lambda: (r.randrange(60, 90), r.randrange(1024), r.randrange(-2000000, 2000000)), lambda a, m, b: (a + m / 1024 + b * 2.0 ** (-31 if hi else -29)) * f / 1000)
                res.append((q.scen(B.msm(t, 0, sats=[5], sigs=[sig - 1], dense=1, weird=0, rough=ro, mod=mo, cp=cp), [], 0, time=(wn, s)), "phase carry %d" % t))
        wn, s = times(r); B = Base(r, wn, s * 1000, r.randrange(4096))
        for t in (1002, 1004):
            am, pr, cp = search(lambda: (r.randrange(60, 90), r.randrange(14900000), r.randrange(-400000, 400000)), lambda a, p, b: (a * C / 1000 + p * 0.02 + b * 0.0005) * 1575.42e6 / C)
            res.append((q.scen(B.legacy(t, 0, nsat=1, sats=[9], amb=am, pr=pr, cp=cp), [], 0, time=(wn, s)), "phase carry %d" % t))
    return res

# ---- from the part of a time in a message to the whole (P16)
HALF = WEEK // 2
def away(r, glo):
    h = DAY // 2 if glo else HALF
    a = r.choice((0, 250, 1000, 29000, 30000, 47000, 48000, 49000, 3600000, 10800000, h - 1000, h - 30000, h // 2, r.randrange(h)))
    return r.choice((1, -1)) * min(a, h - 1000)
def time_scen(r, kind):
    wn, s = times(r); B = Base(r, wn, s * 1000, r.randrange(4096)); out = []
    how = r.choice(("w", "w", "eph", "obs"))
    k = {"time": (wn, s)} if how != "eph" else {}
    if how == "eph":
        if s % 16: B.go(-(s % 16) * 1000)
        out.append(q.frame(q.gps_eph(r, B.wn, B.ms)))
    if how == "obs": k["obs"] = 1
    for _ in range(r.choice((1, 1, 2, 5))):
        glo = kind in ("glo", "gloeph", "glossr", "glomsm")
        d = away(r, glo)
        if kind == "glo" and r.random() < 0.8: d = r.choice((0, 250, 1000, 5000, 11000, 12000, 13000, 29000, 30000, -250, -12000, -30000, -29000, 47000, 48000, 49000, -47000, -48000))
        B.go(d)
        t = {"gps": r.choice((1002, 1004)), "glo": r.choice((1010, 1012)), "gpsmsm": r.choice((1074, 1077)), "glomsm": r.choice((1084, 1087)), "galmsm": r.choice((1094, 1097)), "bdsmsm": r.choice((1124, 1127))}.get(kind)
        sec = B.ms // 1000
        if t and t < 1070: out.append(B.legacy(t, 0, nsat=1))
        elif t: out.append(B.msm(t, 0, weird=0, sats=[3], sigs=[1]))
        elif kind == "gpseph": out.append(q.frame(q.gps_eph(r, r.choice((B.wn, B.wn, B.wn - 1, B.wn + 1, r.randrange(1024))), B.ms, health=r.choice((1, 1, 0)))))
        elif kind == "galeph": out.append(q.frame(q.eph(r, r.choice((1045, 1046)), wn=(B.wn - 1024) % 4096, toe=sec // 60, toc=min(10079, sec // 60 + r.choice((0, 1))))))
        elif kind == "bdseph": out.append(q.frame(q.eph(r, 1042, wn=(B.wn - 1356) % 8192, toe=r.choice((sec // 8, 75599, 75598, 75597, 0)), toc=r.choice((sec // 8, 75599, 0)))))
        elif kind == "gloeph":
            out.append(q.frame(glo_eph(r, q.glo_tod(B.wn, B.ms) // 900000)))
        elif kind == "ssr":
            out.append(q.frame(q.ssr(r, r.choice((1060, 1243, 1059, 1242, 1265)), sec, [3], 1)))
        elif kind == "bdsssr": out.append(q.frame(q.ssr(r, r.choice((1261, 1260)), q.bds_tow(B.ms) // 1000 if r.random() < 0.8 else no_epoch(r, "BDS"), [7], 1)))
        elif kind == "glossr": out.append(q.frame(q.ssr(r, r.choice((1066, 1065)), r.choice((q.glo_tod(B.wn, B.ms) // 1000, 86400, 86399, 0)), [7], 1)))
        if how == "obs" and r.random() < 0.5: out.append(B.msm(1074, 0, weird=0, sats=[5], sigs=[1]))
    st = b"".join(out)
    return q.scen(st, [len(f) for f in out], 0, **k)
def week_edges(r):
    """observations around the beginning of a week of their own system's time"""
    res = []
    for t in (1002, 1004, 1074, 1077, 1094, 1095, 1124, 1125, 1126, 1084, 1010, 1012):
        for e in (0, 14000, DAY, 3 * DAY - 10800000, 10800000) + ((18000, DAY - 10800000 + 18000) if t in (1084, 1010, 1012) else ()):
            for order in ((-1000, 0, 1000), (-250, 250, 1000), (0, 1000), (-1000, 1000)):
                wn = r.choice((2100, 2047, 2200)); ms = e - r.choice((1, 5, 31)) * 1000
                if ms < 0: ms += WEEK; wn -= 1
                B = Base(r, wn, ms, r.randrange(4096)); st = [B.msm(1074, 0, weird=0, sats=[5], sigs=[1])]
                for o in order:
                    B.ms, B.wn = (e + o, wn + (ms > WEEK // 2)) if e + o >= 0 else (WEEK + e + o, wn)
                    st.append(B.legacy(t, 0, nsat=1) if t < 1070 else B.msm(t, 0, weird=0, sats=[3], sigs=[1]))
                res.append((q.scen(b"".join(st), [], 0, time=(wn, ms // 1000), obs=r.choice((0, 1))), "edge of week %d %d" % (t, e)))
    return res
TIMED = ["gps", "glo", "gpsmsm", "glomsm", "galmsm", "bdsmsm", "gpseph", "galeph", "bdseph", "gloeph", "ssr", "bdsssr", "glossr"]
def glo_eph(r, tb, **over):
    w = q.Bits().u(1020, 12)
    ws = g.EPHW[1020]
    # sat 6, fcn 5, flags 1+1+2, tk 12, Bn 1, P2 1, tb 7
    vals = [over.get("sat", r.randrange(1, 28)), over.get("fcn", r.randrange(14))]
    for i, n in enumerate(ws):
        if i < 2: v = vals[i]
        elif i == TB: v = tb
        else: v = g.edge(r, n)
        w.u(v, n)
    return w.bytes(r.getrandbits(1))
TB = next(i for i, n in enumerate(g.EPHW[1020]) if n == 7 and sum(g.EPHW[1020][:i]) == 6 + 5 + 4 + 12 + 2)

# ---- state space corrections (P19)
SYS = {"GPS": 0, "GLO": 1, "GAL": 2, "QZS": 3, "SBAS": 4, "BDS": 5}
def sat_range(s): return {"GPS": range(1, 33), "GLO": range(1, 28), "GAL": range(1, 37), "QZS": range(1, 11), "SBAS": range(0, 39), "BDS": range(1, 64)}[s]
SK = ["orbit", "clock", "clock2", "orbit2", "both", "code", "phase", "otherorbit", "otherclock", "iod", "later"]
def ssr_of(kind, sys):
    return [t for t in g.SSR if g.ssr_kind(t) == kind and g.ssr_sys(t) == sys]
def no_epoch(r, y):
    """an epoch past the end of the week or day"""
    return r.choice((86400, 86401, 86402, 131071, r.randrange(86401, 1 << 17))) if y == "GLO" else r.choice((604800, 604801, 604813, 604814, (1 << 20) - 1, r.randrange(604800, 1 << 20)))
def ssr_script(r, b):
    wn, s = times(r); ms = s * 1000; out = []
    systems = [y for y in ("GPS", "GLO", "GAL", "BDS", "QZS", "SBAS") if ssr_of("orbit", y) and ssr_of("clock", y)]
    main = r.choice(systems); iod = r.randrange(16)
    sats = r.sample(list(sat_range(main)), r.choice((1, 2, 3, 6, 10)) if main != "QZS" else 3)
    for i in b["items"]:
        k = i["k"]; ms += int(i["c"])
        y = main
        if k in ("otherorbit", "otherclock"): y = r.choice(systems); k = k[5:]
        if k == "iod": iod = (iod + 1) % 16; continue
        if k == "later": ms += 1000; continue
        w2, m2 = (wn, ms) if ms < WEEK else (wn + 1, ms - WEEK)
        e = q.glo_tod(w2, m2) // 1000 if y == "GLO" else q.bds_tow(m2) // 1000 if y == "BDS" else m2 // 1000
        if r.random() < 0.08: e = no_epoch(r, y)
        sv = [v for v in sats if v in sat_range(y)] or [1]
        two = k.endswith("2"); k = k.rstrip("2")
        if two:     # fewer, more, other or repeated satellites, in another order
            sv = r.sample(sv, r.randrange(len(sv) + 1)) + r.sample(list(sat_range(y)), r.choice((0, 1, 3, 5)))
            if r.random() < 0.2 and sv: sv.append(sv[0])
        elif r.random() < 0.5: sv = sv[::-1]
        ts = ssr_of(k, y)
        if not ts: continue
        t = r.choice(ts); n = g.ssr_kind(t)
        f = q.frame(q.ssr(r, t, e, sv[:16 if n == "phase" else 60], iod))
        if len(f) > 1000: continue
        out.append(f)
        if len(f) > 900: break
    st = b"".join(out)
    return q.scen(st, [len(f) for f in out] if r.random() < 0.7 else x.cuts(r, len(st)), ending(r, b), time=(wn, s) if r.random() < 0.95 else None)

# ---- stations, receivers, texts, raw frames (P20)
OK = ["pos", "bias", "desc", "text", "swift", "raw", "msm123", "legacyP", "unknowncode", "obs"]
def other_script(r, b):
    wn, s = times(r); B = Base(r, wn, s * 1000, r.choice((0, 1, 127, 128, 4095, r.randrange(4096)))); out = []
    for i in b["items"]:
        k = i["k"]; B.go(int(i["c"]))
        if k == "pos": f = q.frame(q.station(r, r.choice((1005, 1006)), r.randrange(4096)))
        elif k == "bias": f = q.frame(q.m1230(r, B.stn))
        elif k == "desc": f = q.frame(q.m1033(r, B.stn))
        elif k == "text": f = q.frame(q.m1029(r, B.stn))
        elif k == "swift": f = q.frame(q.m4062(r))
        elif k == "raw": f = q.frame(q.ndf(r, B.stn, reserved=r.choice((0,) * 9 + (1, 2)), count=r.choice((None,) * 8 + (1, 2, 63)), cut=r.choice((0,) * 8 + (1, 5, 20))))
        elif k == "msm123": f = q.frame(bytes.fromhex("%03x%03x" % (r.choice((1071, 1072, 1073, 1081, 1093, 1122, 1103, 1112)), B.stn)) + bytes(r.choice((0, 1, 6, 20))))
        elif k == "legacyP": f = B.legacy(1012, r.getrandbits(1))
        elif k == "unknowncode": f = B.msm(r.choice(MSMT), r.getrandbits(1), weird=1.0)
        else: f = B.item(r.choice(("gpsM", "gpsE", "msmM", "msmE")))
        if len(f) < 1030: out.append(f)
    st = b"".join(out)
    how = r.choice(("w", "w", "w", "obs", "none"))
    k = {} if how == "none" else {"time": (wn, s)}
    if how == "obs": k["obs"] = 1
    return q.scen(st, [len(f) for f in out] if r.random() < 0.6 else x.cuts(r, len(st)), ending(r, b), **k)

def bias_history(r, n):
    """measured biases and receiver descriptions over minutes"""
    wn, s = r.choice((2100, 2047)), r.choice((1001, 604700, 86300)); s -= s % 16
    B = Base(r, wn, s * 1000, 7); eph = r.random() < 0.5; out = []
    for _ in range(n):
        k = r.choice(("bias", "desc", "desc", "time", "time"))
        if k == "time":
            d = r.choice((16, 32, 48, 64, 112, 128, 144)) if eph else r.choice((1, 30, 60, 118, 119, 120, 121, 122))
            B.go(d * 1000)
            if eph: out.append(q.frame(q.gps_eph(r, B.wn, B.ms)))
            elif B.ms: out.append(B.msm(1074, 0, weird=0, sats=[5], sigs=[1]))
        elif k == "bias": out.append(q.frame(q.m1230(r, B.stn)))
        else: out.append(q.frame(q.m1033(r, B.stn, rcv=r.choice(q.RCV[:10]))))
    return q.scen(b"".join(out), [], 0, time=(wn, s), obs=0 if eph else 1)
def two_stations(r):
    """two stations whose numbers differ in one bit, at the same time"""
    res = []
    for bit in range(12):
        for ts in ((1074, 1094), (1004, 1012), (1004, 1094)):
            wn, s = times(r); B = Base(r, wn, s * 1000, r.randrange(4096)); st = []
            for i in range(3):
                for t in ts:
                    st.append(B.legacy(t, 1, nsat=1) if t < 1070 else B.msm(t, 1, weird=0)); B.stn ^= 1 << bit
                if r.random() < 0.5: B.go(1000)
            st.append(B.msm(1097, 0, weird=0) if ts[1] > 1070 else B.legacy(1004, 0))
            res.append((q.scen(b"".join(st), [], 0, time=(wn, s)), "stations differing in bit %d" % bit))
    return res

# ---- one check
def check(ctx, scen, labels, want, reals=0, size=6000):
    """run the scenarios and slices of recordings; want: messages there must be at least so many of"""
    exe = q.build(ctx)
    for i in range(reals):
        for s, l in q.real(ctx, size): scen.append(s); labels.append(l)
    gr = ctx.conform(exe, scen, "Trace_Rtcm2Sbp", labels=labels)
    kinds = {}
    for t in gr:
        for v in t[1]:
            for o in v.get("outs", []): kinds[o["k"]] = kinds.get(o["k"], 0) + 1
    ctx.extra["sbp_messages"] = kinds
    ctx.samples = [{"scenario": labels[gr[i][0]], "events": len(gr[i][1])} for i in range(0, len(gr), max(1, len(gr) // 4))]
    if not ctx.violations:
        for k, n in want.items():
            if kinds.get(k, 0) < n: raise vf.MachineryError("hardly any %s: %s" % (k, kinds))
    return gr
def other(v): return v ^ 1 if isinstance(v, int) else v[:-1] + [v[-1] ^ 1]
def corrupt(ctx, gr, kind, field, least=0):
    """the specification rejects a trace one of whose messages has another value"""
    ok = lambda o: o["k"] == kind and len(o["f"]) > max(field, least)
    t = next(t for t in gr if any(ok(o) for e in t[1] for o in e.get("outs", [])))[1]
    def mut(e):
        o = next(o for c in e for o in c.get("outs", []) if ok(o))
        o["f"][field] = other(o["f"][field])
        return e
    ctx.self_test("Trace_Rtcm2Sbp", t, mut)
def forget(ctx, gr, kind):
    """... or is missing a message"""
    t = next(t for t in gr if any(o["k"] == kind for e in t[1] for o in e.get("outs", [])))[1]
    def mut(e):
        c = next(c for c in e if any(o["k"] == kind for o in c.get("outs", [])))
        del c["outs"][next(i for i, o in enumerate(c["outs"]) if o["k"] == kind)]
        return e
    ctx.self_test("Trace_Rtcm2Sbp", t, mut)
ASSUME = ["libsbp and libswiftnav are stand-ins (they are absent here): packed messages are memory images, signal and leap second tables are the published ones",
          "observation times of one system advance in multiples of 250 ms and never lie exactly half a week (half a day for GLONASS) from the reference"]
