"""Random RTCM message bodies, biased to boundaries."""
class Bits:
    def __init__(self): self.b = []
    def u(self, v, n):
        v &= (1 << n) - 1
        self.b += [(v >> (n - 1 - i)) & 1 for i in range(n)]
        return self
    def bytes(self, pad=0):
        b = self.b + [pad] * (-len(self.b) % 8)
        return bytes(sum(x << (7 - j) for j, x in enumerate(b[i:i + 8])) for i in range(0, len(b), 8))

def edge(r, n, extra=()):
    """an n-bit value: often at a boundary"""
    k = r.randrange(10)
    if k < 5: return r.getrandbits(n)
    return r.choice([0, 1, (1 << n) - 1, (1 << n) - 2, 1 << (n - 1), (1 << (n - 1)) - 1, (1 << (n - 1)) + 1] + list(extra)) & ((1 << n) - 1)

OBS = [1001, 1002, 1003, 1004, 1010, 1012]
def tow(r, t):
    glo = t in (1010, 1012) or t // 10 == 108
    m = 86399999 if glo else 604799999
    return r.choice([r.randrange(m + 1)] * 6 + [0, m, 604799998 if not glo else 86399998])

def obs(r, t, nsat=None, towv=None):
    glo = t in (1010, 1012)
    w = Bits().u(t, 12).u(edge(r, 12), 12).u(tow(r, t) if towv is None else towv, 27 if glo else 30).u(r.getrandbits(1), 1)
    n = nsat if nsat is not None else r.choice([0, 1, 1, 2, 3, 5, 12, 31])
    w.u(n, 5).u(r.getrandbits(1), 1).u(r.getrandbits(3), 3)
    for _ in range(n):
        w.u(edge(r, 6), 6).u(r.getrandbits(1), 1)
        if glo: w.u(edge(r, 5, (20, 21, 7, 13)), 5)
        w.u(edge(r, 25 if glo else 24, (0x80002, 0x7FFFF, 0x80001, 0xF80000)), 25 if glo else 24)
        w.u(edge(r, 20), 20).u(edge(r, 7, (23, 24, 47, 48, 71, 72, 95, 96, 119, 120, 126)), 7)
        if t in (1002, 1004, 1010, 1012): w.u(edge(r, 7 if glo else 8), 7 if glo else 8).u(edge(r, 8), 8)
        if t in (1003, 1004, 1012):
            w.u(r.getrandbits(2), 2).u(edge(r, 14), 14).u(edge(r, 20), 20).u(edge(r, 7), 7)
            if t != 1003: w.u(edge(r, 8), 8)
    return w.bytes(r.getrandbits(1))

def string(r, w, n=None):
    n = r.choice([0, 1, 5, 20, 31, 32]) if n is None else n
    w.u(n, 8)
    for _ in range(n): w.u(r.getrandbits(8), 8)

MSM_PREF = {107: "GPS", 108: "GLO", 109: "GAL", 110: "SBAS", 111: "QZS", 112: "BDS"}
def msm(r, t, dims=None, towv=None, dense=None):
    """dims: (satellites, signals)"""
    if dims is None:
        dims = r.choice([(1, 1), (2, 2), (3, 2), (8, 4), (16, 4), (32, 2), (64, 1), (0, 0), (1, 32), (21, 3), (12, 5)])
    ns, ng = dims
    sm = set(r.sample(range(64), ns)); gm = set(r.sample(range(32), ng))
    w = Bits().u(t, 12).u(edge(r, 12), 12)
    tv = tow(r, t) if towv is None else towv
    if t // 10 == 108: w.u(r.getrandbits(3), 3).u(tv, 27)
    else: w.u(tv, 30)
    w.u(r.getrandbits(1), 1).u(r.getrandbits(3), 3).u(r.getrandbits(7), 7).u(r.getrandbits(2), 2).u(r.getrandbits(2), 2)
    w.u(r.getrandbits(1), 1).u(r.getrandbits(3), 3)
    for i in range(64): w.u(i in sm, 1)
    for i in range(32): w.u(i in gm, 1)
    d = r.choice([0.3, 0.7, 1.0]) if dense is None else dense
    cells = [1 if r.random() < d else 0 for _ in range(ns * ng)]
    for c in cells: w.u(c, 1)
    nc, m = sum(cells), t % 10
    hi, rate = m in (6, 7), m in (5, 7)
    for _ in range(ns): w.u(edge(r, 8), 8)
    if rate:
        for _ in range(ns): w.u(edge(r, 4), 4)
    for _ in range(ns): w.u(edge(r, 10), 10)
    if rate:
        for _ in range(ns): w.u(edge(r, 14), 14)
    for _ in range(nc): w.u(edge(r, 20 if hi else 15), 20 if hi else 15)
    for _ in range(nc): w.u(edge(r, 24 if hi else 22), 24 if hi else 22)
    for _ in range(nc): w.u(edge(r, 10, (63, 64, 95, 96, 703, 704)) if hi else edge(r, 4), 10 if hi else 4)
    for _ in range(nc): w.u(r.getrandbits(1), 1)
    for _ in range(nc): w.u(edge(r, 10 if hi else 6), 10 if hi else 6)
    if rate:
        for _ in range(nc): w.u(edge(r, 15), 15)
    return w.bytes(r.getrandbits(1))

def plain(r, t, widths):
    w = Bits().u(t, 12)
    for n in widths: w.u(edge(r, n), n)
    return w.bytes(r.getrandbits(1))
W1005 = [12, 6, 1, 1, 1, 1, 38, 1, 1, 38, 2, 38]

def body(r, t):
    if t in OBS: return obs(r, t)
    if t == 1005: return plain(r, t, W1005)
    if t == 1006: return plain(r, t, W1005 + [16])
    if t in (1007, 1008, 1033):
        w = Bits().u(t, 12).u(edge(r, 12), 12)
        string(r, w); w.u(r.getrandbits(8), 8)
        for _ in range({1007: 0, 1008: 1, 1033: 4}[t]): string(r, w)
        return w.bytes()
    if t == 1029:
        n = r.choice([0, 1, 3, 30, 127, 128, 255])
        w = Bits().u(t, 12).u(edge(r, 12), 12).u(edge(r, 16), 16).u(edge(r, 17), 17).u(edge(r, 7), 7).u(n, 8)
        for _ in range(n): w.u(r.getrandbits(8), 8)
        return w.bytes()
    if t == 1230:
        m = r.randrange(16)
        w = Bits().u(t, 12).u(edge(r, 12), 12).u(r.getrandbits(1), 1).u(r.getrandbits(3), 3).u(m, 4)
        for _ in range(bin(m).count("1")): w.u(edge(r, 16), 16)
        return w.bytes()
    if t == 4062:
        n = r.choice([0, 1, 17, 254, 255])
        w = Bits().u(t, 12).u(0, 4).u(edge(r, 16), 16).u(edge(r, 16), 16).u(n, 8)
        for _ in range(n): w.u(r.getrandbits(8), 8)
        return w.bytes()
    if t == 4075:
        k = r.choice([0, 1, 2, 5, 63])
        w = Bits().u(t, 12).u(edge(r, 12), 12).u(0, 2).u(k, 6)
        for _ in range(k):
            n = r.choice([0, 1, 31, 32, 33, 64, 250, 300]) if k < 60 else r.choice([0, 8, 40])
            for q in (4, 6, 4, 5, 30, 1): w.u(edge(r, q), q)
            w.u(n, 12)
            for _ in range(n): w.u(r.getrandbits(1), 1)
        return w.bytes()
    return msm(r, t)

MSM = [p * 10 + m for p in (107, 108, 109, 110, 111, 112) for m in (4, 5, 6, 7)]

# ---- ephemerides and SSR
O16 = [16, 16, 32, 16, 32, 16, 32, 0, 16, 32, 16, 32, 16, 32, 24]
O18 = [18, 16, 32, 18, 32, 18, 32, 0, 18, 32, 18, 32, 18, 32, 24]
def _orb(o, toe): return [toe if n == 0 else n for n in o]
_GALC = [6, 12, 10, 8, 14, 14, 6, 21, 31] + _orb(O16, 14)
EPHW = {1019: [6, 10, 4, 2, 14, 8, 16, 8, 16, 22, 10] + _orb(O16, 16) + [8, 6, 1, 1],
        1044: [4, 16, 8, 16, 22, 8] + _orb(O16, 16) + [14, 2, 10, 4, 6, 8, 10, 1],
        1042: [6, 13, 4, 14, 5, 17, 11, 22, 24, 5] + _orb(O18, 17) + [10, 10, 1],
        1045: _GALC + [10, 3, 7], 1046: _GALC + [10, 10, 6, 2],
        1020: [6, 5, 2, 2, 12, 1, 1, 7] + [24, 27, 5] * 3 + [1, 11, 2, 1, 22, 5, 5, 1, 4, 11, 2, 1, 11, 32, 5, 22, 1, 7]}
def eph(r, t):
    w = Bits().u(t, 12)
    for i, n in enumerate(EPHW[t]):
        v = edge(r, n)
        if t == 1042 and i == 0: v = r.choice([6, 7, 30, 37, 63] + [r.randrange(6, 64)] * 4)
        w.u(v, n)
    return w.bytes(r.getrandbits(1))

def ssr_kind(t):
    if 1265 <= t <= 1270: return "phase"
    for b in (1057, 1063, 1240, 1246, 1258):
        if b <= t <= b + 5: return {0: "orbit", 1: "clock", 2: "code", 3: "both"}.get(t - b)
def ssr_sys(t):
    for s, b, p in (("GPS", 1057, 1265), ("GLO", 1063, 1266), ("GAL", 1240, 1267), ("QZS", 1246, 1268), ("BDS", 1258, 1270)):
        if b <= t <= b + 5 or t == p: return s
    return "SBAS"
SSR = [t for t in list(range(1057, 1069)) + list(range(1240, 1252)) + list(range(1258, 1264)) + list(range(1265, 1271)) if ssr_kind(t)]
def ssr(r, t, num=None, epoch=None):
    k, s = ssr_kind(t), ssr_sys(t)
    e = 17 if s == "GLO" else 20
    w = Bits().u(t, 12).u(edge(r, e) if epoch is None else epoch, e).u(edge(r, 4), 4).u(r.getrandbits(1), 1)
    if k in ("orbit", "both"): w.u(r.getrandbits(1), 1)
    w.u(edge(r, 4), 4).u(edge(r, 16), 16).u(edge(r, 4), 4)
    if k == "phase": w.u(r.getrandbits(2), 2)
    n = r.choice([0, 1, 2, 3, 3, 10, 63]) if num is None else num
    w.u(n, 6)
    sb = {"GLO": 5, "QZS": 4}.get(s, 6)
    iode = {"GAL": [10], "BDS": [10, 8], "SBAS": [9, 24]}.get(s, [8])
    for _ in range(n):
        w.u(edge(r, sb), sb)
        if k in ("orbit", "both"):
            for q in iode + [22, 20, 20, 21, 19, 19]: w.u(edge(r, q), q)
        if k in ("clock", "both"):
            for q in (22, 21, 27): w.u(edge(r, q), q)
        if k == "code":
            m = r.choice([0, 1, 2, 5, 31] if n < 20 else [0, 1, 2]); w.u(m, 5)
            for _ in range(m): w.u(edge(r, 5), 5).u(edge(r, 14), 14)
        if k == "phase":
            m = r.choice([0, 1, 2, 5, 31] if n < 20 else [0, 1, 2]); w.u(m, 5).u(edge(r, 9), 9).u(edge(r, 8), 8)
            for _ in range(m): w.u(edge(r, 5), 5).u(r.getrandbits(1), 1).u(edge(r, 2), 2).u(edge(r, 4), 4).u(edge(r, 20), 20)
    return w.bytes(r.getrandbits(1))

# ---- encoding: the numbers the driver fills a message with
def sedge(r, n):
    v = edge(r, n)
    return v - (1 << n) if v >> (n - 1) else v
def smag(r, n): return r.choice([0, 1, -1, (1 << (n - 1)) - 1, 1 - (1 << (n - 1))] + [r.randrange(1 - (1 << (n - 1)), 1 << (n - 1))] * 5)
def enc_eph(r, t):
    s = lambda n: sedge(r, n)
    u = lambda n: edge(r, n)
    if t == 1020:
        f = [u(6), 2, u(4), u(2), r.getrandbits(1), u(5), u(7), smag(r, 11), smag(r, 22), smag(r, 5)]
        for _ in range(3): f += [smag(r, 27), smag(r, 24), smag(r, 5)]
        return f
    o = 18 if t == 1042 else 16
    gal = t in (1045, 1046)
    te = 14 if gal else 17 if t == 1042 else 16
    f = [r.randrange(6, 64) if t == 1042 else u(6), {1019: 0, 1042: 3}.get(t, 5), u(12 if gal else 13 if t == 1042 else 10), u(te),
         u(8 if gal else 4), u(1) if t == 1019 else 0, u({1019: 6, 1042: 1, 1045: 3, 1046: 6}[t]),
         s(8 if t == 1019 else 10), s(10) if t in (1042, 1046) else 0]
    f += [s(o) for _ in range(6)] + [s(16), s(32), u(32), u(32), s(32), s(24), s(32), s(32), s(14)]
    f += [s({1019: 22, 1042: 24}.get(t, 31)), s({1019: 16, 1042: 22}.get(t, 21)), s({1019: 8, 1042: 11}.get(t, 6)), u(te)]
    f += [u(10) if t == 1019 else u(5) if t == 1042 else 0, u({1019: 8, 1042: 5}.get(t, 10))]
    return f + ([u(2), u(1)] if t == 1019 else [0, 0])

UNIT = 299792458
LOCK7 = [0, 1, 23, 24, 25, 26, 71, 72, 75, 76, 167, 168, 175, 176, 359, 360, 743, 744, 775, 776, 935, 936, 937, 938, 5000]
C0 = 299792458.0
def wl(t, fcn, k):
    if t < 1009: return C0 / (1575.42e6, 1227.6e6)[k]
    return C0 / (1602e6 + (fcn - 7) * 562.5e3, 1246e6 + (fcn - 7) * 437.5e3)[k]
def enc_obs(r, t, nsat=None):
    glo = t in (1010, 1012)
    n = r.choice([0, 1, 2, 4, 9]) if nsat is None else nsat
    f = [edge(r, 12), tow(r, t), r.getrandbits(1), n, r.getrandbits(1), r.getrandbits(3)]
    unit = UNIT * (2 if glo else 1)
    for _ in range(n):
        fcn = r.randrange(21) if glo else 0
        f += [edge(r, 6), fcn]
        p1 = r.choice([r.randrange(17000000000, 42000000000)] * 5 + [0, 9, unit * 70 + r.randrange(-25, 26), unit * 70 - 1, 20 * 12345678 + 10, unit + r.randrange(100)])
        for k in range(2):
            pr = p1 if k == 0 else p1 + r.choice([0, r.randrange(-60000, 60000), r.randrange(-60000, 60000), 8190 * 20, -8190 * 20, 8191 * 20 + 30, -8191 * 20 - 60,
                                                  r.randrange(-10 ** 7, 10 ** 7), 13 + 20 * r.randrange(-8000, 8000)])
            pr = max(0, pr)
            R = wl(t, fcn, k) * 1500 * 32000
            span = 16 * (1 << 19)
            d = r.choice([r.randrange(-30000 * 32, 30000 * 32)] * 3 + [span - r.randrange(40), -span + r.randrange(40), span + r.randrange(40), -span - r.randrange(40),
                         int(R * r.randrange(-1000, 1000)) + r.randrange(-span, span), int(R * r.randrange(-20000, 20000)), r.randrange(-span, span),
                         int(R * r.randrange(-1000, 1000)) + span - r.randrange(-40, 40)])
            if t == 1001 or t == 1003:
                pass
            fl = r.choice([15] * 6 + [r.randrange(16), 11, 7, 12] + ([14, 13] if k else []))
            f += [r.getrandbits(2), fl, pr, p1 * 32 + d, r.choice(LOCK7 + [r.randrange(1000)]), edge(r, 8)]
    return f

MS = 1 << 31
def enc_msm(r, t, dims=None):
    glo = t // 10 == 108
    ns, ng = dims or r.choice([(1, 1), (3, 2), (8, 4), (16, 4), (32, 2), (64, 1), (5, 3), (1, 32)])
    sm = sum(1 << i for i in r.sample(range(64), ns)); gm = sum(1 << i for i in r.sample(range(32), ng))
    dn = r.choice([0.4, 0.9, 1.0])
    cm = [r.random() < dn for _ in range(ns * ng)]
    tw = r.choice([r.randrange(604800000)] * 4 + [0, 604799999, 86400000, 86399999, 3 * 86400000 - 1])
    f = [edge(r, 12), tw, r.getrandbits(1), r.getrandbits(3), r.getrandbits(7), r.getrandbits(2), r.getrandbits(2), r.getrandbits(1), r.getrandbits(3),
         sm, gm, sum(1 << i for i, c in enumerate(cm) if c)]
    rough, rates = [], []
    for _ in range(ns):
        whole = r.choice([r.randrange(50, 140)] * 5 + [0, 1, 253, 254, 255, 300, 1000])
        x = r.choice([r.randrange(MS)] * 4 + [0, 1 << 20, (1 << 20) - 1, MS - 1, MS - (1 << 20), MS - (1 << 20) + 1, MS - (1 << 21), 5 << 21])
        rough.append(whole * MS + x)
        rates.append(r.choice([r.randrange(-1200, 1200)] * 4 + [0, 8191, -8191, 8192, -8192, 9000, -20000]))
        f += [r.randrange(16), rough[-1], rates[-1]]
    i = 0
    for a in range(ns):
        q = (rough[a] + (1 << 20)) >> 21 << 21
        for b in range(ng):
            if not cm[i]: i += 1; continue
            i += 1
            p = q + r.choice([r.randrange(-16383 * 128, 16383 * 128)] * 5 + [0, 64, -64, 63, 16383 * 128, -16383 * 128, 16383 * 128 + 63, 2097151, -2097151, 2097153, -2097200, 10 ** 9])
            c = q + r.choice([r.randrange(-(1 << 23), 1 << 23)] * 5 + [0, 2, -2, 2097151 * 4, -2097151 * 4, 8388605, 8388606, -8388607, 8388609, -8388700, 10 ** 9])
            rt = 10000 * rates[a] + r.choice([r.randrange(-16382, 16383)] * 4 + [0, 1, -1, 16382, -16382, 16390, -16390])
            lk = r.choice([0, 31, 32, 33, 63, 64, 127, 128, 1023, 1024, 262143, 262144, 524287, 524288, 524289, 9999999, r.randrange(600000)])
            f += [r.choice([31] * 5 + [r.randrange(32)]), p, c, lk, r.getrandbits(1), r.choice([r.randrange(16 * 64)] * 3 + [0, 7, 8, 1007, 1008, 1015, 1016, 1020]), rt]
    return f
ENC_MSM = [p * 10 + m for p in (107, 108, 109, 110, 111, 112) for m in (4, 5)]
def estr(r):
    n = r.choice([0, 1, 5, 31, 32])
    return [n] + [r.randrange(128) for _ in range(n)]
def enc_other(r, t):
    if t in (1005, 1006):
        f = [edge(r, 12), edge(r, 6)] + [r.getrandbits(1) for _ in range(4)] + [sedge(r, 38), r.getrandbits(1), sedge(r, 38), r.getrandbits(2), sedge(r, 38)]
        return f + ([r.choice([0, 1, 65535, 65534, 65536, 100000, -1, -500, r.randrange(65536)])] if t == 1006 else [])
    if t == 1007: return [edge(r, 12)] + estr(r) + [edge(r, 8)]
    if t == 1008: return [edge(r, 12)] + estr(r) + [edge(r, 8)] + estr(r)
    if t == 1033: return [edge(r, 12)] + estr(r) + [edge(r, 8)] + estr(r) + estr(r) + estr(r) + estr(r)
    n = r.choice([0, 1, 20, 127, 128, 255])
    data = [n] + [r.randrange(256) for _ in range(n)]
    if t == 1029: return [edge(r, 12), edge(r, 16), edge(r, 17), edge(r, 7)] + data
    if t == 4062: return [edge(r, 16), edge(r, 16)] + data
    if t == 1230: return [edge(r, 12), r.getrandbits(1), r.randrange(16)] + [sedge(r, 16) for _ in range(4)]
ENC_OTHER = [1005, 1006, 1007, 1008, 1029, 1033, 1230, 4062]
