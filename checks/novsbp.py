"""Recordings for the NovAtel to SBP converter (P25-P27): one driver, one specification."""
import math, random, struct
import vf, novgen as n
SRCS = lambda: vf.sources("nov2sbp") + [vf.VERIF + "/harness/nov2sbp_drv.cc"]
def build(ctx):
    # the stand-ins are C: they are wrapped, the converter is C++
    return ctx.build("nov2sbp_drv", SRCS() + vf.SHIM, cxx=True)
WEEK = 604800000
BESTPOS, BESTVEL, RANGECMP, INSATT, GPSEPHEM, RAWIMUSX, GLOEPH = 42, 99, 140, 263, 7, 1462, 723
def frame(r, mid, body, wn, ms):
    return n.long_frame(mid, body, wn, ms, r) if len(body) > 255 or r.random() < .7 else n.short_frame(mid, body, wn, ms)
def pick(r, *a): return r.choice(a)
FIXES = (0, 1, 2, 4, 5, 6, 8, 16, 17, 18, 19, 32, 33, 34, 48, 49, 50, 51, 52, 53, 54, 55, 56, 68, 69, 74, 77, 78, 80, 3, 7, 255, 65584, 0x80000038)
def bestpos(r, fix=None):
    sd = lambda: pick(r, 0.0, 0.01, 0.0004, 0.0006, 1.5, 65.5344, 65.5346, 65.5354, 65.536, 65.6, 70.0, 131.072, 1000.0, 6.5e4, 1e9, r.uniform(0, 5), r.uniform(0, 5), r.uniform(0, 70))
    lat = pick(r, 0.0, 90.0, -90.0, -1e-9, r.uniform(-90, 90), r.uniform(-90, 90))
    lon = pick(r, 0.0, 180.0, -180.0, 1e-9, r.uniform(-180, 180), r.uniform(-180, 180))
    h = pick(r, 0.0, -430.0, 8848.0, r.uniform(-500, 9000), r.uniform(-100, 100))
    return struct.pack("<IIdddfIfff4sff8B", r.randrange(20), r.choice(FIXES) if fix is None else fix, lat, lon, h, r.uniform(-100, 100), 61, sd(), sd(), sd(),
                       b"AB12", r.uniform(0, 9), r.uniform(0, 9), *[r.randrange(256) for _ in range(8)])
def bestvel(r):
    hs = pick(r, 0.0, 0.0005, 1.0, r.uniform(0, 3), r.uniform(0, 100), r.uniform(0, 900), 3999.0)
    trk = pick(r, 0.0, 45.0, 90.0, 135.0, 180.0, 225.0, 270.0, 315.0, 360.0, 359.999, float(r.randrange(361)), r.uniform(0, 360))
    vs = pick(r, 0.0, 0.0005, -0.0005, 1.0, -1.0, r.uniform(-50, 50), r.uniform(-900, 900))
    return struct.pack("<IIffdddf", r.randrange(20), r.choice(FIXES), r.uniform(0, 1), r.uniform(0, 5), hs, trk, vs, r.uniform(-9, 9))
def insatt(r):
    a = lambda lo, hi: pick(r, 0.0, lo, hi, -1e-6 if lo < 0 else 1e-6, r.uniform(lo, hi), r.uniform(lo, hi), 1e-9)
    return struct.pack("<IddddI", r.randrange(4000), r.uniform(0, 604800), a(-180, 180), a(-90, 90), a(0, 360), pick(r, 3, 3, 3, 0, 1, 2, 6, 7, 8, 9, 10, 11, 12, 4, 0x103))
def gpsephem(r, odd=False):
    u = r.uniform
    real = lambda s: pick(r, 0.0, s, -s, u(-s, s), u(-s, s), u(-s, s) * 1e-3)
    toe = float(pick(r, 0, 604784, 7200, 16 * r.randrange(37800), 16 * r.randrange(37800)))
    toc = float(pick(r, toe, toe, 16 * r.randrange(37800)))
    A = pick(r, (5153.0 + r.randrange(1 << 19) / 2**19) ** 2, u(5100, 5200) ** 2, 26560000.0, u(1, 8191) ** 2)
    ura = pick(r, 4.0, 5.76, 2.0**2, 2.8**2, 5.7**2, 11.3**2, 16.0**2, 6144.0**2, u(0, 100) ** 2)
    prn, week, health, iode = r.randrange(1, 33), r.randrange(4096), pick(r, 0, 0, 63, r.randrange(64)), r.randrange(256)
    if odd:
        k = r.randrange(5)
        if k == 0: prn = pick(r, 256, 257, 0x10001, 0xffffffff)
        if k == 1: week = pick(r, 65536, 0xffffffff, 0x10000 + week)
        if k == 2: toe = pick(r, -1.0, -604800.0, 4294967296.0, 1e30, float("inf"))
        if k == 3: toc = pick(r, -2.0, 4294967296.0, 1e300, float("-inf"))
        if k == 4: toe = toc = float("nan")
    else: week, prn = pick(r, week, week, week, 0, 65535), pick(r, prn, prn, prn, 255, 0)
    e = [toe, A, real(1e-8), real(3.14), u(0, .03), real(3.14), real(1e-5), real(1e-5), real(400), real(400), real(1e-6), real(1e-6), real(3.1), real(1e-9), real(3.14), real(1e-8)]
    return struct.pack("<IdIIIII", prn, u(0, 604800), health, iode, r.randrange(256), week, week) + struct.pack("<16d", *e) + struct.pack("<I", r.randrange(1024)) + \
        struct.pack("<5d", toc, real(2e-8), real(1e-3), real(1e-11), real(1e-16)) + struct.pack("<Idd", r.randrange(2), u(0, 1e-3), ura)
def record(r, sys=None, weird=0.15):
    sys = r.choice((0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7)) if sys is None else sys
    odd = r.random() < weird
    sig = r.choice({0: (0, 0, 5, 5, 9, 14, 17), 1: (0, 0, 1, 2)}.get(sys, range(32))) if not odd else r.randrange(32)
    prn = (r.randrange(1, 33) if sys == 0 else r.randrange(38, 62) if sys == 1 else r.randrange(256)) if not odd else pick(r, 0, 1, 32, 33, 37, 38, 62, 65, 66, 120, 255, r.randrange(256))
    st = r.randrange(32) | r.randrange(32) << 5 | r.randrange(16) << 12 & 0xfe000 | sys << 16 | r.randrange(4) << 19 | sig << 21 | r.randrange(64) << 26
    st &= ~((1 << 10) | (1 << 11) | (1 << 12))
    code, phase = r.random() < .85, r.random() < .85
    st |= code << 12 | phase << 10 | (phase and r.random() < .7) << 11
    dop = pick(r, 0, 1, -1, r.randrange(-1300000, 1300000), r.randrange(-1300000, 1300000), (1 << 23) - 1, -(1 << 23), r.randrange(-(1 << 23), 1 << 23)) if not odd else pick(r, 1 << 23, -(1 << 23) - 1, (1 << 27) - 1, -(1 << 27))
    psr = pick(r, r.randrange(20000000 * 128, 30000000 * 128), r.randrange(20000000 * 128, 30000000 * 128), 64, 63, 0, 1) if not odd else pick(r, (1 << 36) - 1, 10995116276, 10995116277, 10995116278, 10995116279, r.randrange(1 << 36))
    adr = pick(r, 0, 1, -1, 255, -255, 256, -256, (1 << 31) - 1, -(1 << 31), r.randrange(-(1 << 31), 1 << 31), r.randrange(-(1 << 31), 1 << 31))
    lock = pick(r, 0, 1, 2, 3, (1 << 21) - 1, r.randrange(1 << 21), max(0, (1 << r.randrange(5, 21)) * 32 // 1000 + r.randrange(-1, 2)))
    v = st | (dop & 0xfffffff) << 32 | psr << 60 | (adr & 0xffffffff) << 96 | r.randrange(256) << 128 | prn << 136 | lock << 144 | r.randrange(32) << 165 | r.randrange(64) << 170 | r.randrange(65536) << 176
    return v.to_bytes(24, "little")
def good(r):
    """a record SBP can express, so that it has a place of its own in the message"""
    x = bytearray(record(r, 0, 0)); x[2] &= 0x18; x[3] &= 0xfc
    return bytes(x)
def pattern(r, k, bad):
    """k records, those at places bad not expressible"""
    return struct.pack("<I", k) + b"".join(record(r, 3, 0) if i in bad else good(r) for i in range(k))
def rangecmp(r, nrec=None, weird=0.15):
    k = r.choice((0, 1, 2, 5, 13, 14, 15, 27, 28, 29, 42, 43, 56, 57, 62, 63, 64, 80)) if nrec is None else nrec
    return struct.pack("<I", k) + b"".join(record(r, weird=weird) for _ in range(k))
UNITS = (1, 4, 5, 8, 11, 12, 13, 16, 20, 26, 27, 28, 31, 32, 33, 41, 52, 56, 58, 61, 62)
GYRO = {8: 2.0**-19, 13: math.radians(.1 / 256 / 3600), 33: .1 / 3600 / 256, 26: 1e-9, 31: math.radians(720 * 2.0**-31), 32: math.radians(2.0**-21), 56: math.radians(2.0**-21), 41: math.radians(.008 / 65536 / 125),
        62: math.radians(.008 / 65536 / 200), 61: math.radians(.0151515 / 65536 / 200)}
MG = 9.806e-3
ACC = {8: 2.0**-14, 13: .05 * 2.0**-15, 33: .05 * 2.0**-15, 26: 2e-8, 31: 200 * 2.0**-31, 32: 2.0**-22, 56: 2.0**-22, 41: MG * .2 / 65536 / 125, 62: MG * .2 / 65536 / 200, 61: MG * .4 / 65536 / 200, 58: 2.0**-29, 12: .3048 * 2.0**-26}
def rawimu(r, unit=None, info=None, dt=None):
    unit = r.choice(UNITS) if unit is None else unit
    hz = 1000 / dt if dt else 125
    s32 = lambda v: max(-(1 << 31), min((1 << 31) - 1, int(v)))
    g = lambda: s32(pick(r, 0, 1, -1, 5, -(1 << 31) + 1, (1 << 31) - 1, r.randrange(-(1 << 31) + 1, 1 << 31), *[math.radians(r.uniform(-130, 130)) / hz / GYRO.get(unit, 2.0**-33)] * 6))
    a = lambda: s32(pick(r, 0, 1, -1, 7, (1 << 31) - 1, r.randrange(-(1 << 31) + 1, 1 << 31), *[r.uniform(-90, 90) / hz / ACC.get(unit, .3048 * 2.0**-27)] * 6))
    info = pick(r, 0, 4, 4, 4, 0xfc) if info is None else info
    return struct.pack("<BBHdI6i", info, unit, r.randrange(4000), r.uniform(0, 604800), r.randrange(1 << 32), a(), a(), a(), g(), g(), g())
def gloeph(r): return n.body(r, GLOEPH)
def script(frames, cuts=()): return "%s %s\n" % (b"".join(frames).hex() or "-", ",".join(map(str, cuts)) or "-")
def chunks(r, total):
    """the pieces a read may give"""
    if r.random() < .5: return ()
    out = []
    while total > 0 and len(out) < 400: k = r.choice((1, 3, 28, 100, 1000, 4096)); out.append(k); total -= k
    return out
# ---- histories of the model
def cfg(depth, logs, starts="MCStarts"):
    return ("SPECIFICATION Spec\nCONSTANTS Depth = %d\n Logs = {%s}\n Steps <- MCSteps\n Starts <- %s\n Emit = TRUE\nINVARIANT Whole\nCHECK_DEADLOCK FALSE\n"
            % (depth, ", ".join('"%s"' % k for k in logs), starts))
def histories(ctx, depth, num, logs=("pos", "none", "vel", "att", "imu", "bad", "odd")):
    return ctx.generate("MC_NovSbp", cfg(depth, logs), simulate=num, depth=depth + 2)
def label(b): return " ".join("%s@%d/%d" % (m["k"], m["wn"], m["ms"]) for m in b)
def log_bytes(r, k, wn, ms, unit, dt):
    if k == "pos": return frame(r, BESTPOS, bestpos(r, r.choice([f for f in FIXES if f])), wn, ms)
    if k == "none": return frame(r, BESTPOS, bestpos(r, 0), wn, ms)
    if k == "vel": return frame(r, BESTVEL, bestvel(r), wn, ms)
    if k == "att": return frame(r, INSATT, insatt(r), wn, ms)
    if k == "imu": return frame(r, RAWIMUSX, rawimu(r, unit, None, dt), wn, ms)
    if k == "bad": return frame(r, RAWIMUSX, rawimu(r, unit, pick(r, 1, 2, 3, 5, 0xff), dt), wn, ms)
    if k == "odd": return frame(r, RAWIMUSX, rawimu(r, pick(r, 0, 1, 4, 16, 52, 255), None, dt), wn, ms)
    raise KeyError(k)
def history(r, b, unit=None):
    unit = r.choice(UNITS) if unit is None else unit
    fr, last = [], None
    for m in b:
        now = m["wn"] * WEEK + m["ms"]
        dt = now - last if last is not None and 0 < now - last < 100000 else None
        if m["k"] in ("imu", "bad", "odd"): last = now
        fr.append(log_bytes(r, m["k"], m["wn"], m["ms"], unit, dt))
    return script(fr, chunks(r, sum(map(len, fr))))
# ---- running
def sent(events):
    for e in events:
        if e["e"] == "Sbp" and len(e["b"]) > 5: yield e["b"][1] | e["b"][2] << 8
NAMES = {258: "GPS_TIME", 522: "POS_LLH", 526: "VEL_NED", 545: "ORIENT_EULER", 546: "ANGULAR_RATE", 2304: "IMU_RAW", 2305: "IMU_AUX", 74: "OBS", 138: "EPHEMERIS_GPS"}
def check(ctx, scen, labels, want):
    exe = build(ctx)
    gr = ctx.conform(exe, scen, "Trace_NovSbp", labels=labels)
    kinds = {}
    for t in gr:
        for k in sent(t[1]): kinds[k] = kinds.get(k, 0) + 1
    ctx.extra["sbp_messages"] = {NAMES.get(k, str(k)): v for k, v in sorted(kinds.items())}
    ctx.samples = [{"scenario": labels[gr[i][0]], "events": len(gr[i][1])} for i in range(0, len(gr), max(1, len(gr) // 4))]
    if not ctx.violations:
        for k, m in want.items():
            if kinds.get(k, 0) < m: raise vf.MachineryError("hardly any %s: %s" % (NAMES[k], kinds))
    return gr
def corrupt(ctx, gr, num, off, bit=0, drop=False):
    """the specification rejects a trace with a message changed or left out"""
    isn = lambda e: e["e"] == "Sbp" and (e["b"][1] | e["b"][2] << 8) == num and (drop or len(e["b"]) > off + 8)
    t = next(t for t in gr if any(isn(e) for e in t[1]))[1]
    def mut(ev):
        i = next(i for i, e in enumerate(ev) if isn(e))
        if drop: return ev[:i] + ev[i + 1:]
        b = ev[i]["b"]; b[6 + off] ^= 1 << bit
        from sbp2rtcm import crc16
        c = crc16(bytes(b[1:-2])); b[-2:] = [c & 255, c >> 8]
        return ev
    ctx.self_test("Trace_NovSbp", t, mut)
ASSUME = ["libsbp and libswiftnav are stand-ins; the geoid model's stand-in is half the latitude less a quarter of the longitude",
          "header times lie in the week; standard deviations are not negative, speeds are below 4 km/s, numbers are not NaN (except the times of ephemerides)"]
