"""Scenarios for the RTCM to SBP converter (P13-P20): one driver, one specification."""
import os, json, random
import rtcmgen as g, ubxsbp as x, vf
from rtcmgen import Bits
SRCS = lambda: vf.sources(*vf.LIB_ALL_C) + [vf.C + "/rtcm3tosbp/src/rtcm3tosbp.c", vf.VERIF + "/harness/rtcm2sbp_drv.c"] + vf.SHIM
DATA = vf.C + "/rtcm3tosbp/test/data/"
def build(ctx): return ctx.build("rtcm2sbp_drv", SRCS(), defs=["-DSD_RAW"])
def frame(body, bad=0):
    h = b"\xd3" + bytes((len(body) >> 8, len(body) & 255)) + body
    return h + (x.crc24_bytes(h) ^ bad).to_bytes(3, "big")
LETTER = {0: "G", 2: "R", 5: "E", 3: "C", 4: "J", 1: "S"}
def scen(stream, cuts=(), end=0, time=None, obs=0, mask=(), bias=(), glo=(0, 0, 0, 0)):
    cfg = {"obs": obs, "time": list(time) if time else [], "mask": list(mask), "bias": [list(b) for b in bias], "glo": list(glo)}
    a = ["-" + LETTER[m] for m in mask]
    if time: a += ["-w", "%d:%d" % tuple(time)]
    if obs: a += ["-o"]
    if bias: a += ["-b", ",".join("%d:%r" % (c, b / 64) for c, b in bias)]
    if glo[0] or glo[1]: a += ["-c", "3:%r,4:%r" % (glo[0] / 64, glo[1] / 64)]
    if glo[2] or glo[3]: a += ["-l", "3:%r,4:%r" % (glo[2] / 64, glo[3] / 64)]
    return "%s %s %d %s %s\n" % (vf.hexs(stream), ",".join(map(str, cuts)) or "-", end, json.dumps(cfg, separators=(",", ":")), " ".join(a))

# recordings of real receivers: file, time at the beginning
REAL = {"RTCM3.bin": (1945, 277500), "glo_day_rollover.rtcm": (1959, 510191), "1012_first.rtcm": (1959, 510191), "piksi-5Hz.rtcm3": (2036, 204236),
        "jenoba-jrr32m.rtcm3": (2036, 204236), "msm7.rtcm": (2036, 204236), "beidou_invalid_fine_pseudorange.rtcm": (2051, 412185),
        "missing-gps.rtcm": (2007, 289790), "dropped-packets-STR24.rtcm3": (2007, 289790), "missing-beidou-STR17.rtcm3": (2007, 289790),
        "week-rollover-STR17.rtcm3": (2009, 604200), "week-rollover-STR24.rtcm3": (2009, 604200), "switch-legacy-msm-legacy-msm.rtcm": (2002, 308700),
        "mixed-msm-legacy.rtcm": (2002, 375900), "eph.rtcm": (2012, 300000), "trimble.rtcm": (2002, 300000), "javad.rtcm": (2002, 300000),
        "leica.rtcm": (2002, 300000), "sept.rtcm": (2002, 300000), "navcom.rtcm": (2002, 300000), "topcon.rtcm": (2002, 300000), "hemi.rtcm": (2002, 300000),
        "geo++_ASH1.rtcm": (2002, 300000), "geo++_NVR.rtcm": (2002, 300000), "geo++_TRM.rtcm": (2002, 300000), "test_gal_eph.rtcm": (2014, 300000),
        "test_bds_eph.rtcm": (2014, 300000), "test_glo_eph.rtcm": (2015, 300000), "clk.rtcm": (2013, 171000), "bds-clk.rtcm": (2013, 171000),
        "separate_clk_orbit.rtcm": (2013, 171000), "eph_wn.rtcm": (2026, 300000), "msm.rtcm": (2026, 300000), "piksi-2Hz.rtcm3": (2036, 75680),
        "wn-rollover2.rtcm": (2025, 604000)}
def first_tow(d):
    """the time of the first GPS observation message, in ms"""
    i = 0
    while i + 10 < len(d):
        n = ((d[i + 1] & 3) << 8) | d[i + 2]
        if d[i] == 0xd3 and n > 7 and i + n + 6 <= len(d) and x.crc24_bytes(d[i:i + 3 + n]) == int.from_bytes(d[i + 3 + n:i + 6 + n], "big"):
            v = int.from_bytes(d[i + 3:i + 10], "big")
            if (v >> 44) in (1002, 1004, 1074, 1075, 1076, 1077): return (v >> 2) & 0x3fffffff
            i += n + 6
        else: i += 1
def real(ctx, size):
    """(scenario, label): slices of the recordings"""
    r, out = ctx.rng, []
    for n, t in sorted(REAL.items()):
        d = open(DATA + n, "rb").read()
        o = 0 if len(d) <= size or r.random() < 0.4 else r.randrange(len(d) - size)
        s = d[o:o + size]
        ft = first_tow(s)
        if ft is not None and ft < x.WEEK: t = (t[0], max(0, ft // 1000 - r.randrange(8)))
        out.append((scen(s, x.cuts(r, len(s)) if r.random() < 0.5 else [], time=t, obs=r.choice((0, 0, 1))), "%s from %d" % (n, o)))
    return out

# ---- messages
WEEK, DAY = 604800000, 86400000
def leap(wn): return 18 if wn >= 1930 else 17
def glo_tod(wn, ms): return (ms - leap(wn) * 1000 + 10800000) % DAY
def bds_tow(ms): return (ms - 14000) % WEEK
def near_edge(r, n, extra=()): return g.edge(r, n, extra)
def legacy(r, t, stn, tow, sync, nsat=None, sats=None, valid=0.95, amb=None, pr=None, cp=None):
    glo = t in (1010, 1012)
    n = r.choice((1, 2, 3, 5)) if nsat is None else nsat
    w = Bits().u(t, 12).u(stn, 12).u(tow, 27 if glo else 30).u(sync, 1).u(n, 5).u(r.getrandbits(1), 1).u(r.getrandbits(3), 3)
    pick = sats or (list(range(1, 25)) if glo else list(range(1, 33)) + list(range(40, 59)))
    for k in range(n):
        sv = r.choice(pick) if r.random() < 0.97 else r.randrange(64)
        w.u(sv, 6).u(r.random() < 0.15, 1)
        if glo: w.u(r.randrange(14) if r.random() < 0.97 else r.choice((20, 21, 31)), 5)
        ok = r.random() < valid
        pb = 25 if glo else 24
        if pr is not None: w.u(pr, pb)
        else: w.u(r.choice((0, (1 << pb) - 1, r.getrandbits(pb), r.getrandbits(pb))), pb) if r.random() < 0.3 else w.u(r.randrange(14900000 * (1 + glo)), pb)
        w.u(cp if cp is not None else (1 << 19) if not ok else g.edge(r, 20), 20).u(g.edge(r, 7, (23, 24, 47, 48, 71, 72, 126)), 7)
        if t in (1002, 1004, 1010, 1012): w.u(r.randrange(30, 127 if glo else 255) if amb is None else amb, 7 if glo else 8).u(g.edge(r, 8), 8)
        if t in (1003, 1004, 1012):
            w.u(r.choice((0, 0, 0, 1, 2, 3)), 2).u(r.randrange(1 << 14) if r.random() < 0.9 else 8192, 14)
            w.u((1 << 19) if not ok else g.edge(r, 20), 20).u(g.edge(r, 7), 7)
            if t != 1003: w.u(g.edge(r, 8), 8)
    return w.bytes()
SIGS = {"GPS": [2, 3, 4, 9, 10, 15, 16, 17, 22, 23, 24, 30, 31, 32], "GLO": [2, 3, 8, 9], "GAL": [2, 4, 5, 6, 8, 9, 10, 11, 12, 14, 15, 16, 18, 19, 20, 22, 23, 24],
        "BDS": [2, 3, 4, 8, 9, 10, 14, 15, 16, 22, 23, 24, 25, 30, 31, 32], "SBAS": [2], "QZS": [2, 9]}
NSAT = {"GPS": 32, "GLO": 24, "GAL": 36, "BDS": 63, "SBAS": 19, "QZS": 10}
def cons(t): return g.MSM_PREF[t // 10]
def msm(r, t, stn, tow, mult, sats=None, sigs=None, dense=None, weird=0.05, rough=None, mod=None, rr=None, cp=None, dop=None):
    """rough, mod, rr: the same for all satellites; cp, dop: for all cells"""
    c = cons(t)
    ns = r.choice((1, 1, 2, 3, 5)) if sats is None else 0
    if sats is None: sats = r.sample(range(NSAT[c]), min(ns, NSAT[c]))
    if r.random() < weird: sats = list(set(sats) | {r.randrange(64)})
    if sigs is None:
        sigs = [s - 1 for s in r.sample(SIGS[c], min(len(SIGS[c]), r.choice((1, 2, 2, 3))))]
        if r.random() < weird: sigs.append(r.randrange(32))
    sm, gm = sorted(set(sats)), sorted(set(sigs))
    w = Bits().u(t, 12).u(stn, 12)
    w.u(r.getrandbits(3), 3).u(tow, 27) if c == "GLO" else w.u(tow, 30)
    w.u(mult, 1).u(r.getrandbits(3), 3).u(r.getrandbits(7), 7).u(r.getrandbits(2), 2).u(r.getrandbits(2), 2).u(r.getrandbits(1), 1).u(r.getrandbits(3), 3)
    for i in range(64): w.u(i in sm, 1)
    for i in range(32): w.u(i in gm, 1)
    d = r.choice((0.5, 1.0, 1.0)) if dense is None else dense
    cells = [r.random() < d for _ in range(len(sm) * len(gm))]
    for x_ in cells: w.u(x_, 1)
    nc, m = sum(cells), t % 10
    hi, rate = m in (6, 7), m in (5, 7)
    inv = lambda n, p=0.05: (1 << (n - 1)) if r.random() < p else g.edge(r, n)
    for _ in sm: w.u(rough if rough is not None else 255 if r.random() < 0.03 else r.randrange(30, 250), 8)
    if rate:
        for _ in sm: w.u(r.randrange(14) if c == "GLO" else r.getrandbits(4), 4)
    for _ in sm: w.u(g.edge(r, 10) if mod is None else mod, 10)
    if rate:
        for _ in sm: w.u(rr if rr is not None else r.choice((r.randrange(-1200, 1200),) * 8 + (8191, -8191, -8192, 6400, -6300)), 14)
    for _ in range(nc): w.u(inv(20 if hi else 15), 20 if hi else 15)
    for _ in range(nc): w.u(inv(24 if hi else 22) if cp is None else cp, 24 if hi else 22)
    for _ in range(nc): w.u(g.edge(r, 10, (63, 64, 95, 96, 703, 704)) if hi else g.edge(r, 4), 10 if hi else 4)
    for _ in range(nc): w.u(r.getrandbits(1), 1)
    for _ in range(nc): w.u(g.edge(r, 10, (1022, 1023, 1021)) if hi else g.edge(r, 6), 10 if hi else 6)
    if rate:
        for _ in range(nc): w.u(inv(15) if dop is None else dop, 15)
    return w.bytes()
def eph(r, t, **over):
    """over: wn, toe, toc, health, sat.."""
    names = {1019: ["sat", "wn", "ura", "l2", "idot", "iode", "toc", "af2", "af1", "af0", "iodc", "crs", "dn", "m0", "cuc", "ecc", "cus", "sqrta", "toe", "cic", "om", "cis", "inc", "crc", "w", "od", "tgd", "health", "l2p", "fit"],
             1044: ["sat", "toc", "af2", "af1", "af0", "iode", "crs", "dn", "m0", "cuc", "ecc", "cus", "sqrta", "toe", "cic", "om", "cis", "inc", "crc", "w", "od", "idot", "l2", "wn", "ura", "health", "tgd", "iodc", "fit"],
             1042: ["sat", "wn", "ura", "idot", "iode", "toc", "af2", "af1", "af0", "iodc", "crs", "dn", "m0", "cuc", "ecc", "cus", "sqrta", "toe", "cic", "om", "cis", "inc", "crc", "w", "od", "tgd1", "tgd2", "health"],
             1020: ["sat", "fcn"]}
    gal = ["sat", "wn", "iod", "ura", "idot", "toc", "af2", "af1", "af0", "crs", "dn", "m0", "cuc", "ecc", "cus", "sqrta", "toe", "cic", "om", "cis", "inc", "crc", "w", "od"]
    nm = names.get(t, gal)
    w = Bits().u(t, 12)
    for i, n in enumerate(g.EPHW[t]):
        k = nm[i] if i < len(nm) else ""
        v = g.edge(r, n)
        if k == "sat" and t == 1042: v = r.randrange(6, 64)
        if k == "sat" and t == 1020: v = r.randrange(0, 30)
        if k == "fcn" and t == 1020: v = r.randrange(14) if r.random() < 0.8 else r.randrange(32)
        if k in ("toe", "toc"):
            lim = {1019: 37800, 1044: 37800, 1042: 75600, 1045: 10080, 1046: 10080}[t]
            v = r.choice((0, lim - 1, r.randrange(lim), r.randrange(lim), r.randrange(lim)))
            if t not in (1042, 1044) and r.random() < 0.05: v = r.choice((lim, (1 << n) - 1))
        if k == "iodc" and t in (1019, 1044) and r.random() < 0.5: v = r.choice((240, 247, 248, 255, 496, 497, 503, 504, 510, 511, 752, 756, 757, 1021, 1023, 239, 256))
        if k in over: v = over[k]
        w.u(v, n)
    return w.bytes(r.getrandbits(1))
def gps_eph(r, wn, ms, health=0, **over):
    return eph(r, 1019, wn=wn % 1024, toe=over.pop("toe", (ms // 16000) % 37800), toc=(ms // 16000) % 37800, health=health, sat=r.randrange(1, 33), **over)
def ssr(r, t, epoch, sats, iod, upd=2, codes=None):
    k, s = g.ssr_kind(t), g.ssr_sys(t)
    e = 17 if s == "GLO" else 20
    w = Bits().u(t, 12).u(epoch, e).u(upd, 4).u(r.getrandbits(1), 1)
    if k in ("orbit", "both"): w.u(r.getrandbits(1), 1)
    w.u(iod, 4).u(g.edge(r, 16), 16).u(g.edge(r, 4), 4)
    if k == "phase": w.u(r.getrandbits(2), 2)
    w.u(len(sats), 6)
    sb = {"GLO": 5, "QZS": 4}.get(s, 6)
    iode = {"GAL": [10], "BDS": [10, 8], "SBAS": [9, 24]}.get(s, [8])
    for sat in sats:
        w.u(sat, sb)
        if k in ("orbit", "both"):
            for q in iode + [22, 20, 20, 21, 19, 19]: w.u(g.edge(r, q), q)
        if k in ("clock", "both"):
            for q in (22, 21, 27): w.u(g.edge(r, q), q)
        if k in ("code", "phase"):
            m = r.choice((0, 1, 2, 5, 31) if len(sats) < 6 else (0, 1, 2)); w.u(m, 5)
            if k == "phase": w.u(g.edge(r, 9), 9).u(g.edge(r, 8), 8)
            for _ in range(m):
                w.u(g.edge(r, 5), 5)
                if k == "code": w.u(g.edge(r, 14), 14)
                else: w.u(r.getrandbits(1), 1).u(g.edge(r, 2), 2).u(g.edge(r, 4), 4).u(g.edge(r, 20), 20)
    return w.bytes()
def station(r, t, stn):
    if t in (1005, 1006):
        w = Bits().u(t, 12).u(stn, 12)
        for n in (g.W1005 + [16] * (t == 1006))[1:]: w.u(g.edge(r, n), n)
        return w.bytes()
RCV = ["TRIMBLE NETR9", "ASHTECH", "LEICA GRX1200", "NOV OEM6", "GEOMAX", "SEPT POLARX5", "TPS NET-G3A", "JAVAD TRE_G3TH", "NAVCOM SF-3050", "HEMI P300",
       "Geo++ GNSMART (GLO=ASH)", "Geo++ GNSMART (GLO=HEM)", "Geo++ GNSMART (GLO=TRM) SEPT", "Geo++ GNSMART (GLO=SEP)", "Geo++ GNSMART (GLO=NVR)", "Geo++ GNSMART (GLO=LEI)",
       *("Geo++ GNSMART (GLO=%s)" % k for k in ("JAV", "JPS", "NOV", "NAV", "SOK", "TPS", "TRM")), "Geo++ GNSMART (GLO=XYZ)", "Geo++ GNSMART (GLO=LEI) TRIMBLE",
       "Geo++ GNSMART", "PIKSI MULTI", "", "trimble", "NO", "XNOVX", "LEICA TRIMBLE", "TPSJAVAD", "SEP", "GEOMA"]
def m1033(r, stn, rcv=None):
    w = Bits().u(1033, 12).u(stn, 12)
    def s(b):
        w.u(len(b), 8)
        for c in b: w.u(c, 8)
    s(bytes(r.choice((65, 66, 84, 80, 83)) for _ in range(r.choice((0, 3, 31))))); w.u(r.getrandbits(8), 8)
    s(r.choice((b"", b"123", b"TRIMBLE"))); s((r.choice(RCV) if rcv is None else rcv).encode() + r.choice((b"", b"", b"\0LEICA"))); s(r.choice((b"", b"4.2 NOV"))); s(r.choice((b"", b"SEPT")))
    return w.bytes()
def m1230(r, stn):
    m = r.randrange(16)
    w = Bits().u(1230, 12).u(stn, 12).u(r.getrandbits(1), 1).u(0, 3).u(m, 4)
    for _ in range(bin(m).count("1")): w.u(g.edge(r, 16), 16)
    return w.bytes()
CHARS = ["a", "Z", " ", "é", "ß", "λ", "Ω", "€", "あ", "漢", "\u0800", "\uffff", "😀", "\U00010000", "\U0010ffff"]
def m1029(r, stn, text=None):
    if text is None:
        n = r.choice((0, 1, 5, 40, 247, 248, 249, 250, 251, 255))
        pool = r.choice((CHARS, CHARS[:3], CHARS[3:7], CHARS[7:12], CHARS[12:]))
        b = b""
        lead = "x" * r.randrange(4)
        for c in lead: b += c.encode()
        while True:
            c = r.choice(pool).encode()
            if len(b) + len(c) > n: break
            b += c
    else: b = text
    w = Bits().u(1029, 12).u(stn, 12).u(g.edge(r, 16), 16).u(g.edge(r, 17), 17).u(min(127, len(b)), 7).u(len(b), 8)
    for c in b: w.u(c, 8)
    return w.bytes()
def m4062(r):
    w = Bits().u(4062, 12).u(0, 4).u(258, 16).u(g.edge(r, 16), 16)
    d = bytes(r.randrange(256) for _ in range(r.choice((16, 16, 13, 20))))
    w.u(len(d), 8)
    for c in d: w.u(c, 8)
    return w.bytes()
def ndf(r, stn, frames=None, reserved=0, count=None, cut=0):
    """frames: (system, satellite, bits)"""
    if frames is None:
        frames = []
        for _ in range(r.choice((0, 1, 1, 2, 3))):
            sy = r.choice((3, 3, 3, 0, 5, 1))
            n = r.choice((256, 256, 256, 256, 288, 224, 320, 0) if sy == 3 else (250, 256, 300, 0, 1, 31, 1500))
            ws = x.sbas_words(r, pre=r.choice((None,) * 7 + (84,)), bad=r.choice((0,) * 8 + (1, 0x800000)), n=9)
            bits = "".join(format(v, "032b") for v in ws)
            frames.append((sy, r.choice((0, 1, 18, 38, 39, 63, r.randrange(39), r.randrange(39), r.randrange(39))), bits[:n].ljust(n, "0")))
    w = Bits().u(4075, 12).u(stn, 12).u(reserved, 2).u(len(frames) if count is None else count, 6)
    for sy, sat, bits in frames:
        w.u(sy, 4).u(sat, 6).u(g.edge(r, 4), 4).u(g.edge(r, 5), 5).u(r.randrange(WEEK), 30).u(r.getrandbits(1), 1).u(len(bits), 12)
        for b in bits: w.u(int(b), 1)
    o = w.bytes()
    return o[:len(o) - cut] if cut else o
