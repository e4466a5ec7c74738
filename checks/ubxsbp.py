"""Scenarios for the UBX to SBP converter (P08-P11): one driver, one specification."""
import struct, ubxgen as u, vf
SRCS = lambda: [s for s in vf.sources("libubx/src", "gnss_converters/src") if "/ubx_" in s or "libubx" in s or "sbas" in s or s.endswith("/common.c")] + \
    [vf.VERIF + "/harness/ubx_drv.c"] + vf.SHIM
WEEK = 604800000
def scen(stream, cuts=(), end=0, hnr=0, sender=None, fails=()):
    j = lambda x: ",".join(str(int(v)) for v in x) or "-"
    return "%s %s %d %d %s %s\n" % (vf.hexs(stream), j(cuts), end, hnr, "-" if sender is None else sender, j(fails))
def cuts(r, n):
    """how the stream arrives"""
    k = r.randrange(4)
    if k == 0 or n == 0: return []
    if k == 1: return [1] * min(n, 6000)
    out, left = [], n
    while left > 0 and len(out) < 300:
        c = r.choice((1, 2, 3, 5, 8, 30, 100, 1000)); out.append(min(c, left)); left -= c
    return out
f8 = lambda v: struct.pack("<d", v)
f4 = lambda v: struct.pack("<f", v)
def noise(r, n):
    return bytes(r.choice((0xb5, 0x62, 0, 0xd3, 0x55, r.randrange(256))) for _ in range(n))
def monhw(r, n):
    return u.frame(u.MONHW, u.rb(r, n))
def tow(r):
    return r.choice((0, 1, 999, 1000, 1119, 1120, 1121, 345600000, WEEK - 1, r.randrange(WEEK), r.randrange(WEEK)))
def s32(r, lim=2**31 - 1):
    k = r.random()
    if k < 0.15: return r.choice((0, 1, -1, lim, -lim))
    return r.randrange(-lim, lim + 1) >> r.choice((0, 0, 8, 16))
def u32(r):
    return r.choice((0, 1, 255, 256, 65534, 65535, 65536, 65537, 2**31, 2**32 - 1, r.randrange(2**32), r.randrange(100000), r.randrange(70000)))
X10 = 214748364
def pvt(r, t=None, fix=None, flags=None):
    p = bytearray(u.rb(r, 92))
    struct.pack_into("<I", p, 0, tow(r) if t is None else t)
    p[20] = r.choice((0, 1, 2, 3, 4, 5, 3, 4, 6, 255)) if fix is None else fix
    if flags is not None: p[21] = flags
    struct.pack_into("<iii", p, 24, s32(r), s32(r), s32(r))
    struct.pack_into("<II", p, 40, u32(r), u32(r))
    return u.frame(u.PVT, bytes(p))
def hnr(r):
    p = bytearray(u.rb(r, 72))
    struct.pack_into("<I", p, 0, tow(r))
    struct.pack_into("<iii", p, 20, s32(r), s32(r), s32(r))
    struct.pack_into("<i", p, 48, s32(r, X10))
    struct.pack_into("<II", p, 52, u32(r), u32(r))
    return u.frame(u.HNR, bytes(p))
def att(r):
    return u.frame(u.ATT, struct.pack("<IB3xiiiIII", tow(r), 0, s32(r, X10), s32(r, X10), s32(r, X10), u32(r), u32(r), u32(r)))
def vel(r):
    return u.frame(u.VEL, struct.pack("<IiiiI", tow(r), s32(r, X10), s32(r, X10), s32(r, X10), u32(r)))
def sat(r, n=None):
    n = r.choice((0, 1, 2, 12, 62, 63, 64, 84, 85, 86, 99, 100)) if n is None else n
    g = b"".join(struct.pack("<BBBbhhI", r.randrange(8), r.randrange(1, 255), r.choice((0, 1, 35, 63, 64, 99, 255)), r.randrange(-91, 91),
                             r.choice((0, 1, 2, 359, 360, r.randrange(361))), r.randrange(-999, 999), r.randrange(2**32)) for _ in range(n))
    return u.frame(u.SAT, struct.pack("<IBBH", tow(r), 1, n, 0) + g)
def status(r, t=None, fix=None, flags=None, msss=0):
    return u.frame(u.STATUS, struct.pack("<IBBBBII", tow(r) if t is None else t, r.choice((0, 1, 2, 3, 4, 5)) if fix is None else fix,
                                         r.choice((0xD, 0xF, 0xDD, 0xC, 0x9, 0x5, 1, 0, r.randrange(256))) if flags is None else flags, 0, 0, 0, msss))
def meas(r, weird=False):
    if weird:
        pr = r.choice((0.0, 85899345.89, 85899345.87, 85899346.0, 1e12, -1.0, 1e300, float("inf"), float("nan"), -25000000.5, 42949672.96, 0.0199, 0.0201))
        cp = r.choice((0.0, 2147483647.25, 2147483647.999, 2147483648.0, -2147483648.0, -2147483649.5, 1e15, -1e300, float("nan"), float("inf"), 0.998, 0.9981, -0.001))
        do = r.choice((0.0, 32767.25, 32767.999, 32768.0, -32768.0, -32769.0, 1e9, float("nan"), float("-inf"), -0.001, 0.9985))
    else:
        pr, cp, do = r.uniform(0, 6e7), r.uniform(-3e8, 3e8), r.uniform(-9000, 9000)
        if r.random() < 0.1: cp = float(int(cp)) + r.choice((0.0, 0.001, 0.999, 0.9981))
    return f8(pr) + f8(cp) + f4(do) + bytes((r.choice((0, 1, 2, 3, 5, 6, 4, 7)), r.randrange(1, 200), r.choice((0, 0, 1, 2, 3, 4, 5, 6, 7)), r.randrange(14))) + \
        struct.pack("<H", r.choice((0, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 511, 512, 1023, 1024, 4096, 8192, 16384, 32768, 64500, 65535, r.randrange(65536)))) + \
        bytes((r.choice((0, 1, 20, 45, 62, 63, 64, 100, 255)), 0, 0, 0, r.randrange(256), 0))
def secs(r):
    k = r.random()
    if k < 0.3: return float(r.randrange(604800))
    if k < 0.6: return r.randrange(604800) + r.choice((0.0004997, 0.0005003, 0.1, 0.2, 0.999, 0.0009, 0.9994, 0.0001))
    return r.uniform(0, 604799.99)
def rawx(r, n=None, t=None, wn=None, rec=None, leap=None, weird=False):
    n = r.choice((0, 1, 2, 5, 13, 14, 15, 28, 29, 42)) if n is None else n
    return u.frame(u.RAWX, f8(secs(r) if t is None else t) + struct.pack("<HbBBB2x", r.choice((0, 1, 1024, 2100, 2200, 2300)) if wn is None else wn,
                   r.choice((18, 17, 0, -1, 127)) if leap is None else leap, n, r.choice((0, 1, 2, 3)) if rec is None else rec, 1)
                   + b"".join(meas(r, weird and r.random() < 0.7) for _ in range(n)))
# ---- external sensors
def esf_meas(data, calib, valid=True, tag=None, r=None, n=None):
    """data: [(type, 24 bits)]"""
    n = len(data) if n is None else n
    fl = (8 if valid else 0) | n << 11 | (r.randrange(8) if r else 0)
    b = struct.pack("<IHH", calib & 0xffffffff if tag is None else tag, fl, 0) + b"".join(struct.pack("<I", (t & 63) << 24 | v & 0xffffff | (r.choice((0, 0, 1, 3)) << 30 if r else 0)) for t, v in data)
    return u.frame(u.MEAS, b + (struct.pack("<I", calib & 0xffffffff) if valid else b""))
def esf_raw(data, msss):
    """data: [(type, 24 bits, sensor time tag)]"""
    return u.frame(u.RAW, struct.pack("<I", msss & 0xffffffff) + b"".join(struct.pack("<II", (t & 255) << 24 | v & 0xffffff, tag) for t, v, tag in data))
GX, GY, GZ, AX, AY, AZ, GT = 14, 13, 5, 16, 17, 18, 12
IMU = (GX, GY, GZ, AX, AY, AZ)
# ---- navigation message pieces
def sfrbx(gnss, sv, words, freq=0, n=None):
    n = len(words) if n is None else n
    return u.frame(u.SFRBX, bytes((gnss, sv, 0, freq & 255, n, 0, 2, 0)) + b"".join(struct.pack("<I", w & 0xffffffff) for w in words))
def gps_words(r, k, iod, how=None, pre=139):
    w = [r.randrange(2**30) for _ in range(10)]
    w[0] = (w[0] & ~(255 << 22)) | pre << 22
    w[1] = (w[1] & ~(7 << 8)) | k << 8
    how = r.randrange(100800) if how is None else how
    w[1] = (w[1] & ~(0x1ffff << 13)) | how << 13
    i = {1: 7, 2: 2, 3: 9}.get(k)
    if i is not None: w[i] = (w[i] & ~(255 << 22)) | iod << 22
    return w
def bds_words(r, k, sow):
    w = [r.randrange(2**30) for _ in range(10)]
    w[0] = (w[0] & ~((7 << 12) | (255 << 4))) | k << 12 | (sow >> 12) << 4
    w[1] = (w[1] & ~(0xfff << 18)) | (sow & 0xfff) << 18
    return w
def gal_words(r, k, iod, even=0, odd=1, n=9, gsat=None):
    w = [r.randrange(2**32) for _ in range(n)]
    if n: w[0] = even << 30 | k << 24 | iod << 14 | r.randrange(2**14)
    if n > 4: w[4] = odd << 31 | r.randrange(2**31)
    if gsat is not None and k == 4: w[0] = (w[0] & ~0x3f00) | gsat << 8
    return w
def glo_words(r, k, frame, n=4, idle=0):
    w = [r.randrange(2**32) for _ in range(n)]
    w[0] = idle << 31 | k << 27 | (w[0] & 0x7ffffff)
    if n > 3: w[3] = frame << 16 | r.randrange(2**16)
    return w
def crc24(bits):
    c = 0
    for b in bits:
        c = (c << 1) | b
        if c & 0x1000000: c ^= 0x1864CFB
    return c & 0xffffff
def crc24_bytes(bs):
    c = 0
    for b in bs:
        c ^= b << 16
        for _ in range(8):
            c <<= 1
            if c & 0x1000000: c ^= 0x1864CFB
    return c
def sbas_words(r, pre=None, bad=0, n=8):
    pre = r.choice((83, 154, 198)) if pre is None else pre
    bits = [int(x) for x in format(pre, "08b")] + [r.randrange(2) for _ in range(218)]
    # the 226 bits are checked as 29 bytes, right aligned
    al = [0] * 6 + bits
    bs = [int("".join(map(str, al[8 * i:8 * i + 8])), 2) for i in range(29)]
    c = crc24_bytes(bs) ^ bad
    bits += [int(x) for x in format(c, "024b")] + [r.randrange(2) for _ in range(6)]
    w = [int("".join(map(str, bits[32 * i:32 * i + 32])), 2) for i in range(8)]
    return (w + [r.randrange(2**32)])[:n]
