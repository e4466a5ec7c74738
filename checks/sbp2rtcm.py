"""Scenarios for the SBP to RTCM converter (P21-P24): one driver, one specification."""
import math, random, struct
import vf, rtcmgen as g
SRCS = lambda: vf.sources(*vf.LIB_ALL_C) + [vf.C + "/sbp2rtcm/src/sbp2rtcm.c", vf.VERIF + "/harness/s2r_drv.c"] + vf.SHIM
def build(ctx): return ctx.build("s2r_drv", SRCS())
T = dict(pos=72, bias=117, obs=74, osr=1600, gps=138, bds=137, gal=141, glo=139, log=1025, ssr=(1501, 1505, 1510, 1530, 1525, 1515))
WEEK = 604800000
C = 299792458.0
def S(t, snd, b): return "S:%d,%d,%s" % (t, snd, vf.hexs(b))
def scen(mode, steps): return mode + " " + " ".join(steps) + "\n"
def settings(mode=5, leap=18, fcn=()):
    return (["L:%d" % leap] if leap is not None else []) + (["M:%d" % mode] if mode is not None else []) + ["F:%d,%d" % f for f in fcn]

# ---- observations
SIG = {"GPS": (0, 1, 5, 6, 7, 8, 9, 10, 11, 56, 57, 58), "SBAS": (2, 41, 42, 43), "GLO": (3, 4, 29, 30), "BDS": (12, 13, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55),
       "QZS": tuple(range(31, 41)), "GAL": tuple(range(14, 29))}
GOOD = {"GPS": (0, 1, 5, 6, 7, 8, 9, 10, 11, 56, 57, 58), "SBAS": (2, 41, 42, 43), "GLO": (3, 4, 29, 30), "BDS": (12, 13, 47, 48, 49), "QZS": (31, 35, 36, 37, 38, 39, 40), "GAL": tuple(range(14, 29))}
SATS = {"GPS": range(1, 33), "SBAS": range(120, 139), "GLO": range(1, 25), "BDS": range(1, 64), "QZS": range(193, 203), "GAL": range(1, 37)}
def freq(code, fcn):
    for c, f in (((0, 5, 6 - 6, 2, 14, 15, 16, 31, 32, 33, 34, 44, 45, 46, 56, 57, 58), 1575.42), ((1, 6, 7, 8, 35, 36, 37), 1227.6), ((9, 10, 11, 26, 27, 28, 38, 39, 40, 41, 42, 43, 47, 48, 49), 1176.45),
                 ((12,), 1561.098), ((13, 20, 21, 22), 1207.14), ((17, 18, 19), 1278.75), ((23, 24, 25), 1191.795), ((50, 51, 52), 1207.14), ((53, 54, 55), 1268.52)):
        if code in c: return f * 1e6
    k = (fcn if fcn is not None else 7) - 7
    return (1602e6 + k * 562500 if code in (3, 29) else 1246e6 + k * 437500)
def cons_of(code): return next((c for c in SIG if code in SIG[c]), None)
def s32(v): return max(-(1 << 31), min((1 << 31) - 1, v))
def s16(v): return max(-(1 << 15), min((1 << 15) - 1, v))
def ob(P, L, D, cn0, lock, flags, sat, code):
    """L, D in 1/256"""
    return struct.pack("<IiBhBBBBBB", max(0, min(2**32 - 1, P)), s32(L >> 8), L & 255, s16(D >> 8), D & 255, cn0, lock, flags, sat, code)
def obs(snd, wn, tow, size, cnt, obl, ns=0):
    return S(T["obs"], snd, struct.pack("<IiHB", tow, ns, wn, ((size << 4) | cnt) & 255) + b"".join(obl))
class Sat:
    """a satellite at a distance, m, approaching or receding, m/s"""
    def __init__(s, r, c, sat=None, fcn=None, weird=0.1, limit=25e6):
        s.r, s.c, s.sat, s.fcn, s.weird = r, c, sat if sat is not None else r.choice(list(SATS[c])), fcn, weird
        s.R = r.uniform(19.5e6, limit) if r.random() > weird else r.choice((r.uniform(0, 1000), r.uniform(30e6, 85.8e6), C * 0.255 - r.uniform(-700, 700), r.randrange(65, 90) * C / 1000 + r.uniform(-.02, .02),
                                                                          r.randrange(60000, 90000) * C / 1024000 + r.choice((0.5, 0)) * C / 1024000))
        s.v = r.uniform(-800, 800) if r.random() > weird else r.choice((0, 0.5, -0.5, r.uniform(-8300, 8300), 8190.6, -8190.6, r.uniform(-1, 1), r.randrange(-800, 800) + 0.5))
    def ob(s, code, flags=None, dp=None, dl=None, dd=None, half=None):
        r, f = s.r, freq(code, s.fcn)
        w = s.weird
        off = lambda edge: r.uniform(-30, 30) if r.random() > w else r.choice((0, edge * r.choice((1, -1)) * r.uniform(0.99, 1.01), edge * r.choice((1, -1)) * r.choice((1 - 1e-4, 1 + 1e-4, 1 - 3e-6, 1 + 3e-6)), r.uniform(-3, 3) * edge))
        P = round((s.R + (off(292.77) if dp is None else dp)) * 50)
        lam = C / f
        L = round((s.R + (off(1171.06) if dl is None else dl)) / lam * 256)
        if dl is None and r.random() < w / 4: L = r.choice((0, -L, (1 << 37) - 1, 1 << 37, -(1 << 37), -(1 << 37) + 1, (1 << 39) - 1, -(1 << 39), r.randrange(-(1 << 39), 1 << 39)))
        dv = r.uniform(-.2, .2) if r.random() > w else r.choice((1.6384 * r.choice((1, -1)) * r.uniform(0.98, 1.02), r.uniform(-4, 4), 0))
        D = round(-(s.v + (dv if dd is None else dd)) / lam * 256)
        if r.random() < w / 6: D = r.choice((0, -D, (1 << 23) - 1, -(1 << 23), r.randrange(-(1 << 23), 1 << 23)))
        if flags is None:
            flags = 15 if r.random() > w * 2 else r.choice((1, 3, 5, 9, 11, 13, 7, 15, 0, 2, 14, 15 | 128, 15 | 64, 15 | 16, 1 | 32, 129))
        cn0 = r.choice((0, 1, 2, 3, 4, 5, 6, 249, 250, 253, 254, 255)) if r.random() < w else r.randrange(100, 220)
        lock = r.randrange(16) if r.random() > w else r.randrange(256)
        return ob(P, L, D, cn0, lock, flags, s.sat, code)
def fcns(r, n=24): return [(s, r.randrange(1, 15)) for s in range(1, n + 1)]
def weird_ob(r):
    """satellites or signals that no system has"""
    return ob(r.randrange(1 << 31), r.randrange(1 << 36), r.randrange(-99999, 99999), 160, 9, r.choice((15, 1, 15, 15)), r.choice((0, 33, 37, 64, 100, 119, 139, 158, 159, 192, 203, 255, r.randrange(256))), r.choice((0, 1, 3, 4, 12, 14, 31, 2, 59, 60, 61, 62, 63, 255, r.randrange(256))))
def some(r, n, fmap, weird=0.1, legacy=False, systems=None):
    """n observations of a few satellites"""
    out = []
    while len(out) < n:
        c = r.choice(systems or (("GPS", "GLO", "GPS", "GLO", "GAL", "SBAS") if legacy else ("GPS", "GLO", "GAL", "BDS", "SBAS", "QZS", "GPS", "GAL")))
        s = Sat(r, c, weird=weird, limit=25e6)
        if legacy:          # one range per satellite: the phase of a signal is sent relative to the range of another
            if s.R > 75.9e6: continue
            s = fmap.setdefault((c, s.sat), s)
        if c == "GLO": s.fcn = fmap.get(s.sat)
        sig = r.sample(SIG[c] if r.random() < weird else GOOD[c], min(r.choice((1, 2, 2, 3)), len(GOOD[c])))
        if legacy and c in ("GPS", "GLO"): sig = [r.choice({"GPS": (0, 5), "GLO": (3, 29)}[c])] + ([r.choice({"GPS": (1, 6), "GLO": (4, 30)}[c])] if r.random() < 0.7 else []) + ([r.choice(GOOD[c])] if r.random() < 0.3 else [])
        for code in sig: out.append(s.ob(code, **legacy_offsets(r) if legacy else {}))
        if r.random() < weird / 2 and not legacy: out.append(weird_ob(r))
    if r.random() < weird: r.shuffle(out)
    return out[:n]
def legacy_offsets(r):
    """the phase as near to the range as 1004 and 1012 are asked to carry, and around the limits of their fields"""
    u = r.uniform
    return {"dl": r.choice((u(-20, 20), u(-20, 20), u(-300, 300), r.choice((1, -1)) * (262.144 + u(-.01, .01)), r.choice((1, -1)) * 1500 * r.uniform(.2, 3), u(-6e6, 6e6))),
            "dp": r.choice((0, u(-20, 20), u(-20, 20), r.choice((1, -1)) * (163.83 + u(-.3, .3)), u(-400, 400)))}

# ---- epochs
def times(r):
    wn = r.choice((2100, 2199, 2262, 2399))
    return wn, r.choice((0, 1000, 14000, WEEK - 2000, WEEK - 18000, WEEK - 10782000 - 3000, 86400000 - 10782000 - 2000, 3 * 86400000, r.randrange(WEEK)))
def epoch_script(r, beh, mode=5, weird=0.06, legacy=False, systems=None, leap=18, settings_=None):
    fm = fcns(r, 28) if r.random() > 0.1 else fcns(r, r.randrange(1, 12))
    fmap = {s: f - 1 for s, f in fm}
    out = settings(mode, leap, fm) if settings_ is None else settings_
    wn, tow = times(r); dt = r.choice((100, 200, 1000, 1000, 5000))
    snd = {}
    pool = r.choice(((1, 2), (0, 4096), (5, 4101), (0xffff, 0x1000), (r.randrange(65536), r.randrange(65536))))
    for m in beh:
        t = tow + m["t"] * dt
        w = wn + t // WEEK; t %= WEEK
        s = snd.setdefault(m["s"], pool[len(snd) % 2])
        o = some(r, m["n"], fmap, weird, legacy, systems) if m["n"] else []
        for i in range(len(o)):
            if r.random() < weird / 2: o[i] = o[i][:14] + bytes([r.choice((0, 128, 129, 143))]) + o[i][15:]
        size = m["size"]; cnt = m["cnt"] - 1
        out.append(obs(s, w, t, size, cnt, o, r.randrange(-500000, 500000)))
    return out
def cfg(depth, senders=(1, 2), times=range(0, 40), sizes=(1, 2, 3), counts=(1, 2, 3, 4), most=(0, 1, 3), orderly=True, emit=True):
    st = lambda xs: "{" + ", ".join(map(str, xs)) + "}"
    b = lambda v: "TRUE" if v else "FALSE"
    return ("SPECIFICATION Spec\nCONSTANTS Depth = %d\n Senders = %s\n Times = %s\n Sizes = %s\n Counts = %s\n Most = %s\n Legacy = FALSE\n Orderly = %s\n Emit = %s\nINVARIANT Whole\nCHECK_DEADLOCK FALSE\n"
            % (depth, st(senders), st(times), st(sizes), st(counts), st(most), b(orderly), b(emit)))
def epochs(ctx, n, num, **k): return ctx.generate("MC_S2REpoch", cfg(n, **k), simulate=num, depth=n + 2)
def blabel(b): return " ".join("%d@%d %d/%d:%d" % (m["s"], m["t"], m["cnt"], m["size"], m["n"]) for m in b)

# ---- the recordings of the repository
def recorded(ctx, name, types):
    d = open(vf.C + name, "rb").read(); out = []; i = 0
    while i + 8 <= len(d):
        if d[i] != 0x55: i += 1; continue
        t, s, n = struct.unpack("<HHB", d[i + 1:i + 6])
        if i + 8 + n > len(d): break
        if crc16(d[i + 1:i + 6 + n]) == struct.unpack("<H", d[i + 6 + n:i + 8 + n])[0]:
            if t in types: out.append((t, s, d[i + 6:i + 6 + n]))
            i += n + 8
        else: i += 1
    return out
def crc16(b):
    c = 0
    for x in b:
        c ^= x << 8
        for _ in range(8): c = ((c << 1) ^ 0x1021 if c & 0x8000 else c << 1) & 0xffff
    return c
NAMES = {1004: "1004", 1012: "1012", 1006: "1006", 1008: "1008", 1033: "1033", 1230: "1230", 1029: "1029", 4062: "4062", 1019: "1019", 1020: "1020", 1042: "1042", 1045: "1045", 1046: "1046"}
def sent(events):
    """the numbers of the RTCM messages that were sent"""
    for e in events:
        o = e.get("out", []); i = 0
        while i + 5 < len(o):
            yield (o[i + 3] << 4) | (o[i + 4] >> 4)
            i += (o[i + 1] << 8 | o[i + 2]) + 6
def check(ctx, scen, labels, want):
    exe = build(ctx)
    gr = ctx.conform(exe, scen, "Trace_Sbp2Rtcm", labels=labels)
    kinds = {}
    for t in gr:
        for k in sent(t[1]): kinds[k] = kinds.get(k, 0) + 1
    ctx.extra["rtcm_messages"] = {str(k): v for k, v in sorted(kinds.items())}
    ctx.samples = [{"scenario": labels[gr[i][0]], "events": len(gr[i][1])} for i in range(0, len(gr), max(1, len(gr) // 4))]
    if not ctx.violations:
        for k, n in want.items():
            if kinds.get(k, 0) < n: raise vf.MachineryError("hardly any %s: %s" % (k, kinds))
    return gr
def with_sum(o):
    """the bytes of one frame with its checksum made right"""
    from ubxsbp import crc24_bytes
    return o[:-3] + list(crc24_bytes(bytes(o[:-3])).to_bytes(3, "big"))
def corrupt(ctx, gr, num, change):
    """the specification rejects a trace with a sent message changed"""
    def frames(o):
        i, out = 0, []
        while i + 5 < len(o): n = (o[i + 1] << 8 | o[i + 2]) + 6; out.append(o[i:i + n]); i += n
        return out
    isn = lambda f: ((f[3] << 4) | (f[4] >> 4)) == num and (num > 1012 or len(f) > 22)
    t = next(t for t in gr if any(isn(f) for e in t[1] for f in frames(e.get("out", []))))[1]
    def mut(ev):
        for e in ev:
            fs = frames(e.get("out", []))
            for i, f in enumerate(fs):
                if isn(f):
                    fs[i] = change(list(f)); e["out"] = sum(fs, []); return ev
    ctx.self_test("Trace_Sbp2Rtcm", t, mut)
def flip(byte, bit):
    """flip a bit of the body, counted from its end where negative"""
    def f(o):
        o[3 + byte if byte >= 0 else len(o) - 3 + byte] ^= 1 << bit
        return with_sum(o)
    return f
def drop(o): return []
ASSUME = ["SBP messages of fixed size have it; libsbp and libswiftnav are stand-ins", "the tool and the library call take the leap second from the system clock (18 s)"]
def epochs_of(r, n, most=6):
    """a well-ordered history of n observation messages"""
    out, t = [], 0
    while len(out) < n:
        size = r.choice((1, 1, 2, 3))
        out += [{"s": 1, "t": t, "size": size, "cnt": i + 1, "n": r.randrange(most)} for i in range(size)]
        t += r.choice((1, 1, 2))
    return out

# ---- ephemerides
PI = math.pi
URA_GPS = (2, 2.8, 4, 5.7, 8, 11.3, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 6144)
URA_GLO = (1, 2, 2.5, 4, 5, 7, 10, 12, 14, 16, 32, 64, 128, 256, 512, 6144)
def sisa(i): return -1 if i == 255 else (i if i < 50 else 50 + (i - 50) * 2 if i < 75 else 100 + (i - 75) * 4 if i < 100 else 200 + (i - 100) * 16) / 100
def raw(r, n, signed=True):
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
    v = r.choice((lo, hi, lo + 1, hi - 1, 0, 1, 1 if not signed else -1, r.randint(lo, hi), r.randint(lo, hi), r.randint(lo, hi), r.randint(lo, hi), r.randint(lo, hi)))
    f = r.choice((0, 0, r.uniform(-.45, .45), .4, -.4))
    return v + (f if lo < v < hi else 0)
def sym(r, n):
    m = (1 << (n - 1)) - 1
    v = r.choice((m, -m, 0, 1, -1, r.randint(-m, m), r.randint(-m, m), r.randint(-m, m)))
    return v + (r.uniform(-.45, .45) if abs(v) < m else 0)
def tos(r, res, edge=()): return r.choice((0, res, WEEK // 1000 - res, r.randrange(WEEK // 1000 // res) * res, r.randrange(WEEK // 1000 // res) * res) + tuple(edge))
def orbit(r, cr, crn, ca, can):
    f = lambda n, k: raw(r, n) / (1 << k)
    a = lambda n, k: raw(r, n) / (1 << k) * PI
    return (struct.pack("<ffffff", f(crn, cr), f(crn, cr), f(can, ca), f(can, ca), f(can, ca), f(can, ca))
            + struct.pack("<dddddddddd"[:11], a(16, 43), a(32, 31), raw(r, 32, False) / (1 << 33), raw(r, 32, False) / (1 << 19), a(32, 31), a(24, 43), a(32, 31), a(32, 31), a(14, 43), 0)[:72])
def common(r, sat, code, toe, wn, ura, fit, health): return struct.pack("<BBIHfIBB", sat, code, toe, wn, ura, fit, r.choice((0, 1)), health)
def wns(r): return r.choice((1024, 1356, 1357, 2047, 2048, 2100, 2400, 3071, 5119, 5120, 9547, 9548, r.randrange(1400, 9000)))
def eph_gps(r, i=None, **o):
    i = r.randrange(16) if i is None else i
    wn, toe = wns(r), tos(r, 16); dw = r.choice((0, 0, 0, 1))
    return (common(r, o.get("sat", r.randrange(1, 33)), o.get("code", r.choice((0, 0, 1, 5, 6, 9, 56, 59))), toe, wn + dw, URA_GPS[i], r.choice((14400, 14400, 21600, 28800, 36000, 50400, 86400, 345600)), o.get("health", r.randrange(64)))
            + struct.pack("<f", raw(r, 8) / (1 << 31)) + orbit(r, 5, 16, 29, 16)
            + struct.pack("<fffIHBH", raw(r, 22) / (1 << 31), raw(r, 16) / (1 << 43), raw(r, 8) / (1 << 55), tos(r, 16), wn, r.randrange(256), r.randrange(1024)))
def eph_gal(r, i=None, **o):
    i = r.choice((0, 1, 49, 50, 51, 74, 75, 99, 100, 101, 125, 255, r.randrange(126))) if i is None else i
    wn = wns(r)
    return (common(r, o.get("sat", r.randrange(1, 37)), o.get("code", r.choice((14, 14, 20, 26, 61))), tos(r, 60), wn, sisa(i), r.choice((0, 14400)), o.get("health", r.randrange(64)))
            + struct.pack("<ff", raw(r, 10) / (1 << 32), raw(r, 10) / (1 << 32)) + orbit(r, 5, 16, 29, 16)
            + struct.pack("<ddfIHHHB", raw(r, 31) / (1 << 34), raw(r, 21) / (1 << 46), raw(r, 6) / (1 << 59), tos(r, 60), wn, r.randrange(1024), r.randrange(1024), o.get("source", r.choice((0, 1)))))
def eph_bds(r, i=None, **o):
    i = r.randrange(16) if i is None else i
    wn = wns(r); wn = max(wn, 1357)
    t = lambda: (tos(r, 8) + 14) % 604800
    toe = t(); toc = r.choice((toe, t()))
    return (common(r, o.get("sat", r.randrange(6, 64)), o.get("code", r.choice((12, 12, 13, 44, 47, 63))), toe, wn, (URA_GPS[:15] + (8192,))[i], r.choice((10800, 0)), o.get("health", r.randrange(256)))
            + struct.pack("<ff", raw(r, 10) * 1e-10, raw(r, 10) * 1e-10) + orbit(r, 6, 18, 31, 18)
            + struct.pack("<dffIHBH", raw(r, 24) / (1 << 33), raw(r, 22) / (1 << 50), raw(r, 11) / (1 << 66), toc, wn, r.randrange(256), r.randrange(1024)))
def eph_glo(r, i=None, leap=18, **o):
    i = r.randrange(15) if i is None else i
    toe = (r.choice((0, 1, 95, r.randrange(672), r.randrange(672), 12, 84, 83, 11)) * 900 + leap) % 604800 if r.random() > 0.1 else r.choice((604800, 0xffffffff, 10798 + leap, r.randrange(604800)))
    return (common(r, o.get("sat", r.randrange(1, 29)), o.get("code", r.choice((3, 3, 4, 29, 30))), toe, r.choice((2100, 2300, 2399, 32767)) if r.random() < 0.2 else 2200, URA_GLO[i], r.choice((2400, 3300, 4200)), o.get("health", r.choice((0, 0, 0, 1, 2, 128, r.randrange(256)))))
            + struct.pack("<fff", sym(r, 11) / (1 << 40), sym(r, 22) / (1 << 30), sym(r, 5) / (1 << 30))
            + struct.pack("<dddddd", *[sym(r, 27) / (1 << 11) * 1000 for _ in range(3)], *[sym(r, 24) / (1 << 20) * 1000 for _ in range(3)])
            + struct.pack("<fffBB", *[sym(r, 5) / (1 << 30) * 1000 for _ in range(3)], o.get("fcn", r.randrange(1, 15)), r.randrange(256)))
EPH = {"gps": eph_gps, "gal": eph_gal, "bds": eph_bds, "glo": eph_glo}
def eph(r, k=None, **o):
    k = k or r.choice(list(EPH))
    return S(T[k], r.randrange(65536), EPH[k](r, **o))
