import struct
def crc16(b):
    c = 0
    for x in b:
        c ^= x << 8
        for _ in range(8): c = ((c << 1) ^ (0x1021 if c & 0x8000 else 0)) & 0xffff
    return c
def frame(mid, payload, sec=0, usec=0, week=0, fc=0, trig=0, status=0, length=None, bad=0, sync=0x7e):
    n = 16 + len(payload) + 4
    b = struct.pack("<BBBBHHII", sync, mid, fc, trig, n if length is None else length, week, sec & 0xffffffff, usec & 0xffffffff) + payload + struct.pack("<H", status)
    return b + struct.pack("<H", crc16(b) ^ bad)
def when(r):
    return dict(sec=r.choice((0, 1, 604799, r.randrange(604800), r.randrange(604800))), usec=r.choice((0, 1, 999, 1000, 999999, r.randrange(1000000), r.randrange(1000000))),
                week=r.randrange(65536), fc=r.randrange(256), trig=r.randrange(256), status=r.randrange(65536))
def f4(v): return struct.pack("<f", v)
def imu(r, vals=None, **k):
    if vals is None:
        a = lambda m: r.choice((0.0, -0.0, m, -m, 2 * m, -3 * m, 1e30, -1e30, 1e-30, float("inf"), float("-inf"), m * 0.9999, m * 1.0001, r.uniform(-m, m), r.uniform(-m, m), r.uniform(-m, m) / 1000))
        vals = [a(39.2266) for _ in range(3)] + [a(2.1816616) for _ in range(3)]
    return frame(0, b"".join(map(f4, vals)), **{**when(r), **k})
def wheel(r, speed=None, ticks=None, **k):
    speed = r.choice((0.0, -0.0, 1.0, -1.0, 0.0004, 0.001, -0.0015, 33.3333, 2000000.0, -2000000.0, r.uniform(-100, 100), r.uniform(-1e6, 1e6))) if speed is None else speed
    ticks = r.choice((0, 1, -1, 2**31 - 1, -2**31, r.randrange(-2**31, 2**31))) if ticks is None else ticks
    return frame(0x16, f4(speed) + struct.pack("<i", ticks), **{**when(r), **k})
def rb(r, n): return bytes(r.choice((0x7e, 0, 255, r.randrange(256))) if r.random() < 0.3 else r.randrange(256) for _ in range(n))
