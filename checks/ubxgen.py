import struct
HNR, RAWX, SFRBX, ATT, CLOCK, PVT, VEL, SAT, STATUS, MGA, INS, MEAS, RAW = (
    0x2800, 0x0215, 0x0213, 0x0105, 0x0122, 0x0107, 0x0111, 0x0135, 0x0103, 0x1300, 0x1015, 0x1002, 0x1003)
MONHW = 0x0A09
TYPES = [HNR, RAWX, SFRBX, ATT, CLOCK, PVT, VEL, SAT, STATUS, MGA, INS, MEAS, RAW]
FIXED = {HNR: 72, RAWX: 16, SFRBX: 8, ATT: 32, CLOCK: 20, PVT: 92, VEL: 20, SAT: 8, STATUS: 16, MGA: 68, INS: 36, MEAS: 8, RAW: 4}
GROUP = {RAWX: 32, SFRBX: 4, SAT: 12, MEAS: 4, RAW: 8}
def rb(r, n):
    """random bytes with edges: now and then runs of 00, ff, 80, 7f"""
    return bytes(r.choice((0, 255, 0x80, 0x7f)) if r.random() < 0.25 else r.randrange(256) for _ in range(n))
def msg(t, payload, length=None):
    return struct.pack(">H", t) + struct.pack("<H", len(payload) if length is None else length) + payload
def fletcher(b):
    a = c = 0
    for x in b: a = (a + x) & 255; c = (c + a) & 255
    return bytes((a, c))
def frame(t, payload, length=None, bad=0):
    m = msg(t, payload, length)
    ck = fletcher(m)
    return b"\xb5\x62" + m + bytes((ck[0] ^ (bad & 255), ck[1] ^ (bad >> 8)))
def payload(r, t, n=None, calib=None):
    p = bytearray(rb(r, FIXED[t]))
    if t in GROUP:
        mx = {RAWX: 255, SFRBX: 10, SAT: 100, MEAS: 31, RAW: 128}[t]
        if n is None: n = r.choice((0, 1, 2, 3, r.randrange(mx + 1) if r.random() < 0.2 else 4))
        if t == RAWX: p[11] = n
        if t == SFRBX: p[4] = n
        if t == SAT: p[5] = n
        tag = False
        if t == MEAS:
            f = r.randrange(2048) | n << 11
            if calib is not None: f = f & ~8 | (8 if calib else 0)
            p[4:6] = struct.pack("<H", f)
            tag = f & 8
        p += rb(r, n * GROUP[t])
        if tag: p += rb(r, 4)
    return bytes(p)
