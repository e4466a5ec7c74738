"""Histories for the SBP to NMEA converter (P28-P30): one driver, one specification."""
import datetime, struct
import vf
SRCS = lambda: vf.sources(*vf.LIB_ALL_C) + [vf.VERIF + "/harness/nmea_drv.c"]
def build(ctx):
    return ctx.build("nmea_drv", SRCS() + vf.SHIM, flags=("-fsanitize=vla-bound", "-fno-sanitize-recover=vla-bound"))
GPS_TIME, UTC_TIME, POS, VEL, DOPS, AGE, HDG, AZEL, MEAS, GROUP, META, GPS_TIME_G, UTC_TIME_G, POS_G, VEL_G, EULER = range(16)
NAMES = "GGA RMC VTG HDT GLL ZDA GSA GST GSV PUBX THS".split()
WEEK = 604800000
ALL = " ".join("r%d,1" % k for k in range(11))
pick = lambda r, *a: r.choice(a)
f64 = lambda x: "%016x" % struct.unpack("<Q", struct.pack("<d", x))[0]
f32 = lambda x: "%08x" % struct.unpack("<I", struct.pack("<f", x))[0]
def msg(i, *v): return "m%d" % i + "".join(",%s" % x for x in v)

# ------------------------------------------------------------------ contents
def junk(r): return pick(r, 0, 0, 0, 8, 16, 0x20, 0x80, 0xf8)      # bits beside the mode
def utc(r, i, tow, known=None):
    src = (0 if r.random() < .06 else r.randrange(1, 8)) if known is None else (1 if known else 0)
    y = pick(r, 2020, 2024, 2000, 1999, 2100, 9999, r.randrange(1980, 2100))
    mo, h, mi, s = (r.randrange(1, 13), r.randrange(24), r.randrange(60), r.randrange(60))
    if r.random() < .25: mo, h, mi, s = pick(r, (12, 23, 59, 59), (2, 23, 59, 59), (mo, 23, 59, 59), (mo, h, 59, 59), (mo, h, mi, 59))
    last = (datetime.date(y + mo // 12, mo % 12 + 1, 1) - datetime.date(y, mo, 1)).days if y < 9999 else 28
    d = pick(r, 1, last, last, r.randrange(1, last + 1), min(last, 28))
    ns = pick(r, 0, 0, 100000000 * r.randrange(10), 4999999, 5000001, 994999999, 995000001, 999999999, 655360000, 655999999, r.randrange(1000000000))
    if ns % 10000000 == 5000000: ns += 1
    return msg(i, tow, src | junk(r), y, mo, d, h, mi, s, ns)
def degrees_(r, top):
    whole = r.randrange(top)
    x = pick(r, 0.0, float(top), r.uniform(0, top), r.uniform(0, top), whole + r.uniform(0, 1e-4), whole + 1 - 10.0 ** -r.randrange(3, 13), whole + .5, whole + r.randrange(60) / 60.0,
             1e-9, 4e-9, 6e-9, 15.9999999996, whole + 1 - 4e-9, whole + 1 - 6e-9)
    return pick(r, 1, -1) * min(x, float(top))
def cov(r):
    std = lambda: pick(r, 0.0, .001, .01, 1.0, 500.0, 10.0 ** r.uniform(-3, 2.6), 10.0 ** r.uniform(-3, 2.6), r.uniform(0, 5), r.uniform(0, 5))
    a, b = std(), std()
    if r.random() < .15: b = a
    rho = pick(r, 0.0, 0.0, 1.0, -1.0, .999999, -.9999, r.uniform(-1, 1), r.uniform(-1, 1))
    return a * a, rho * a * b, b * b, std() ** 2
def pos(r, i, tow, mode=None):
    mode = pick(r, 0, 1, 1, 2, 3, 4, 4, 5, 6) if mode is None else mode
    h = pick(r, 0.0, -430.0, 8848.0, r.uniform(-500, 9000), r.uniform(-100, 100), r.uniform(-1e6, 1e6), .004, -.004)
    c = cov(r)
    return msg(i, tow, f64(degrees_(r, 90)), f64(degrees_(r, 180)), f64(h), *[f32(x) for x in c], pick(r, 0, 4, 9, 10, 12, 99, 100, 255), mode | junk(r))
def speed(r):
    a = lambda: pick(r, 0, 1, -1, 99, 101, -99, r.randrange(-300, 300), r.randrange(-40000, 40000), r.randrange(-40000, 40000), r.randrange(-4000000, 4000000))
    n, e = a(), a()
    if r.random() < .1: e = pick(r, 0, n, -n)
    if r.random() < .1: n, e = pick(r, 1, -1) * 100000, pick(r, 1, -1) * r.randrange(200)     # about north and south
    return n, e, a()
def vel(r, i, tow, v=None):
    mode = pick(r, 0, 1, 1, 2, 3, 4, 7) if v is None else 1
    v = speed(r) if v is None else v
    return msg(i, tow, *(v if mode else (0, 0, 0)), mode | junk(r))
dop = lambda r: pick(r, 0, 4, 6, 99, 100, 101, 994, 996, 65535, r.randrange(65536), r.randrange(1000), r.randrange(1000))
def dops(r, tow): return msg(DOPS, tow, dop(r), dop(r), dop(r), dop(r), pick(r, 0, 1, 1, 2, 3, 4, 5, 6) | junk(r))
def age(r, tow): return msg(AGE, tow, pick(r, 0, 1, 9, 10, 255, 256, 65534, r.randrange(65535), r.randrange(100)))
def hdg(r, tow):
    return msg(HDG, tow, pick(r, 0, 4, 6, 90000, 359994, 359996, 359999, 359949, r.randrange(360000), r.randrange(360000)), pick(r, 4, 4, 4, 4, 3, 0, 1, 2) | junk(r))
def euler(r, tow):
    a = pick(r, 0, 4000, 6000, -4000, -6000, 90000000, -90000000, 180000000, -180000000, 179999999, -179999999, 359994000, 359999999, -1, 1, r.randrange(-180000000, 180000001), r.randrange(-180000000, 180000001), r.randrange(360000000))
    return msg(EULER, tow, a, pick(r, 0, 1, 1, 1, 2) | junk(r))
def meta(r, tow): return msg(META, tow, dop(r), dop(r), pick(r, 0, 1, 30, 65534, r.randrange(65535)))
GPS_C, SBAS_C, GLO_C, BDS_C, GAL_C, QZS_C = (0, 1, 5, 6, 7, 9, 56), (2, 41), (3, 4, 29), (12, 13, 44, 47), (14, 15, 20, 24), (31, 35, 38)
def sat(r, sys=None):
    sys = pick(r, 0, 0, 1, 2, 3, 3, 4, 4, 5) if sys is None else sys
    return (pick(r, 1, 9, 10, 32, r.randrange(1, 33)), r.choice(GPS_C)) if sys == 0 else (r.randrange(120, 139), r.choice(SBAS_C)) if sys == 1 else \
        (r.randrange(1, 29), r.choice(GLO_C)) if sys == 2 else (r.randrange(1, 64), r.choice(BDS_C)) if sys == 3 else (r.randrange(1, 37), r.choice(GAL_C)) if sys == 4 else (r.randrange(193, 203), r.choice(QZS_C))
def sats(r, n):
    sys = pick(r, None, None, None, 0, 2, (0, 4), (0, 1, 5), (2, 3))
    one = lambda: sat(r, r.choice(sys) if isinstance(sys, tuple) else sys)
    out = []
    for _ in range(n):
        s = one()
        if out and r.random() < .2:      # another signal of a satellite already there
            s0 = r.choice(out); g = next(g for g in (GPS_C, SBAS_C, GLO_C, BDS_C, GAL_C, QZS_C) if s0[1] in g); s = (s0[0], r.choice(g))
        out.append(s)
    return out
def azel(r):
    n = pick(r, 0, 1, 3, 4, 5, 8, 9, 12, 13, 16, 30, 63, r.randrange(64))
    return [(s, c, r.randrange(180), pick(r, 0, 90, 5, -1, -9, -90, r.randrange(91))) for s, c in sats(r, n)]
def meas(r, seen=()):
    n = pick(r, 0, 1, 10, 40, 85)
    mixed = [s[:2] for s in seen if r.random() < .7] + [(s, r.choice((0, 3, 12, 14, 31, 2))) for s, *_ in seen if r.random() < .15] + sats(r, n)
    r.shuffle(mixed)
    return [(s, c, pick(r, 0, 1, 2, 3, 38, 160, 255, r.randrange(256))) for s, c in mixed[:85]]
flat = lambda rows: [x for row in rows for x in row]
def observations(r, wn, tow, n=None, flagged=.15, sys_=None):
    """all of an epoch's observations, in messages of up to fourteen"""
    n = pick(r, 0, 1, 5, 13, 14, 15, 28, 29, 42, r.randrange(60), 200) if n is None else n
    rows = [(s, c, pick(r, 0x80, 0x8f, 0xff) if r.random() < flagged else pick(r, 0, 0xf, 0x7f, r.randrange(128))) for s, c in sats(r, n)]
    parts = max(1, (len(rows) + 13) // 14)
    return ["o%d,%d,%d" % (wn, tow, parts * 16 + k) + "".join(",%d,%d,%d" % row for row in rows[14 * k:14 * k + 14]) for k in range(parts)]
def solution(r, wn, tow, gnss=True, mode=None, v=None):
    i = 11 if gnss else 0
    return [msg(GPS_TIME + i, tow, wn), utc(r, UTC_TIME + i, tow), pos(r, POS + i, tow, mode), vel(r, VEL + i, tow, v)]
def extras(r, tow, gnss=True):
    out = [dops(r, tow), age(r, tow)] if gnss else []
    if r.random() < .5: out.append(hdg(r, tow))
    if r.random() < .5: out.append(euler(r, tow))
    return out
def settings(r):
    out = ["b%d" % pick(r, 0, 9, 120, 1023, 1024, 65535, r.randrange(65536))] if r.random() < .5 else []
    if r.random() < .5: out.append("c%d" % pick(r, 0, 50, 150, 333, 997))
    if r.random() < .5: out.append("u%d" % pick(r, 0, 20, 150, 333, 997))
    return out
def epoch(r, mode, wn, tow, obs=True, v=None, pmode=None):
    """one epoch of a receiver in operation"""
    seen = azel(r) if r.random() < .5 else None
    out = [msg(AZEL, *flat(seen)), msg(MEAS, *flat(meas(r, seen)))] if seen is not None else []
    o = observations(r, wn, tow) if obs else []
    if r.random() < .5: out, o = out + o, []
    if mode == "G":
        body = solution(r, wn, tow, r.random() < .5, pmode, v) + extras(r, tow)
        r.shuffle(body)
        return out + body + o
    body = solution(r, wn, tow, True, pmode, v) + extras(r, tow)
    r.shuffle(body)
    group = solution(r, wn, tow, False, pmode, v) + ([euler(r, tow)] if r.random() < .7 else [])
    r.shuffle(group)
    group = [msg(GROUP)] + group + [meta(r, tow)]
    return out + (body + group if r.random() < .5 else group + body) + o
def line(mode, ops, rates=ALL, freq="10/1"): return "%s f%s %s %s\n" % (mode, freq, rates, " ".join(ops))

# ------------------------------------------------------------- TLC's histories
CFG = """SPECIFICATION Spec
CONSTANTS Mode = "%s" Epochs = %d Depth = %d Tidy = %s Emit = TRUE Rates <- R1
CHECK_DEADLOCK FALSE
"""
def histories(ctx, mode, tidy, n, depth):
    return ctx.generate("MC_Nmea", CFG % (mode, 25 if tidy else 6, depth, "TRUE" if tidy else "FALSE"), simulate=n, depth=depth * 3)
def models(ctx):
    cfg = """SPECIFICATION Spec
CONSTANTS Mode = "%s" Epochs = %d Depth = 0 Tidy = TRUE Emit = FALSE Rates <- %s
INVARIANTS Once GnssTrue GsaTrue FusedTrue NotInside FusedOnly HdgTrue
CHECK_DEADLOCK FALSE
"""
    for m, e, rates in (("G", 2, "R1"), ("B", 3, "R12"), ("F", 3, "R12")) if ctx.quick else (("G", 3, "R12"), ("B", 4, "R12"), ("F", 5, "R12")):
        ctx.model_check("MC_Nmea", cfg_text=cfg % (m, e, rates), coverage=False)
def content(r, i, tow, wn):
    return {GPS_TIME: lambda: msg(i, tow, wn), UTC_TIME: lambda: utc(r, i, tow), POS: lambda: pos(r, i, tow), VEL: lambda: vel(r, i, tow)}.get(i % 11 if i in (11, 12, 13, 14) else i, {
        DOPS: lambda: dops(r, tow), AGE: lambda: age(r, tow), HDG: lambda: hdg(r, tow), EULER: lambda: euler(r, tow), META: lambda: meta(r, tow), GROUP: lambda: msg(GROUP),
        AZEL: lambda: msg(AZEL, *flat(azel(r))), MEAS: lambda: msg(MEAS, *flat(meas(r)))}.get(i))()
def concrete(r, mode, log, step=100):
    wn, t0 = r.randrange(1, 4000), 100 * r.randrange(1, 6000000)
    out = settings(r)
    for x in log:
        if x["k"] == "epoch": continue
        t = t0 + step * x["ep"]; w = wn + t // WEEK; t %= WEEK
        t = t or 1000000       # a time of week of 0 is what the converter starts with
        if x["k"] == "msg": out.append(content(r, x["id"], t, w))
        else:
            rows = [(s, c, pick(r, 0, 0xf, 0x80)) for s, c in sats(r, r.randrange(15))]
            out.append("o%d,%d,%d" % (w, t, x["seq"]) + "".join(",%d,%d,%d" % q for q in rows))
    return out

# ------------------------------------------------------------------ recordings
def recording():
    """the operations of /repo's recording of a receiver, epoch by epoch"""
    d = open(vf.C + "/gnss_converters/test/data/nmea.sbp", "rb").read()
    u, i, out = struct.unpack_from, 0, []
    while True:
        i = d.find(b"\x55", i)
        if i < 0 or i + 8 > len(d): return out
        t, _, n = u("<HHB", d, i + 1)
        b = d[i + 6:i + 6 + n]
        if i + 8 + n > len(d): return out
        i += 8 + n
        if t == 258: wn, tow = u("<HI", b); out.append(msg(GPS_TIME, tow, wn))
        elif t == 259: f, tow, y, mo, dd, h, mi, s, ns = u("<BIHBBBBBI", b); out.append(msg(UTC_TIME, tow, f, y, mo, dd, h, mi, s, ns))
        elif t == 529:
            q = u("<I3d6f2B", b); out.append(msg(POS, q[0], *map(f64, q[1:4]), f32(q[4]), f32(q[5]), f32(q[7]), f32(q[9]), q[10], q[11]))
        elif t == 526: q = u("<I3iHHBB", b); out.append(msg(VEL, *q[:4], q[7]))
        elif t == 520: q = u("<I5HB", b); out.append(msg(DOPS, q[0], q[2], q[4], q[5], q[3], q[6]))
        elif t == 528: out.append(msg(AGE, *u("<IH", b)))
        elif t == 151: out.append(msg(AZEL, *[x for k in range(n // 4) for x in u("<BBBb", b, 4 * k)]))
        elif t == 97: out.append(msg(MEAS, *b))
        elif t == 74:
            tow, _, wn, no = u("<IiHB", b)
            out.append("o%d,%d,%d" % (wn, tow, no) + "".join(",%d,%d,%d" % (b[k + 15], b[k + 16], b[k + 14]) for k in range(11, n - 16, 17)))
def segments(r, n, length, rates=ALL):
    ops = recording()
    if len(ops) < 1000: raise vf.MachineryError("the recording could not be read")
    for _ in range(n):
        k = r.randrange(len(ops) - length)
        yield line("G", ops[k:k + length], rates)

# -------------------------------------------------------------------- checking
CHECK = 'SPECIFICATION TraceSpec\nCONSTANT What = "%s"\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
def sentence(e): return bytes(e["b"]).decode()
def kind(s): return "PUBX" if s.startswith("$PUBX") else s[3:6]
def count(gr):
    n = {}
    for _, ev, _ in gr:
        for e in ev:
            if e["e"] == "Out": k = kind(sentence(e)); n[k] = n.get(k, 0) + 1
    return n
def check(ctx, what, scen, labels, need):
    exe = build(ctx)
    gr = ctx.conform(exe, scen, "Trace_Nmea", cfg_text=CHECK % what, labels=labels)
    n = count(gr)
    ctx.extra["sentences"] = n
    short = {k: v for k, v in need.items() if n.get(k, 0) < v}
    if short and not ctx.violations: raise vf.MachineryError("too few sentences of %s: %s" % (short, n))
    ctx.samples += [sentence(e).strip() for _, ev, _ in gr[:40] for e in ev if e["e"] == "Out"][:4]
    return gr
def resum(s):
    body = s[1:s.index("*")]; x = 0
    for c in body.encode(): x ^= c
    return "$%s*%02X\r\n" % (body, x)
def corrupt(ctx, gr, what, k, change):
    """change(fields) of the first sentence of kind k that it applies to, or None to drop the sentence"""
    for _, ev, _ in gr:
        if len(ev) > 200: continue
        for i, e in enumerate(ev):
            if e["e"] != "Out" or kind(sentence(e)) != k: continue
            if change is None: return ctx.self_test("Trace_Nmea", ev, lambda ev: ev[:i] + ev[i + 1:], cfg_text=CHECK % what)
            s = sentence(e); f = s[1:s.index("*")].split(",")
            g = change(list(f))
            if g is None or g == f: continue
            b = list(resum("$" + ",".join(g) + "*").encode())
            return ctx.self_test("Trace_Nmea", ev, lambda ev: ev[:i] + [{"e": "Out", "b": b}] + ev[i + 1:], cfg_text=CHECK % what)
    raise vf.MachineryError("nothing to corrupt: " + k)
def last_digit(i, by=1, d=1):
    def f(x):
        if i >= len(x) or not x[i] or not x[i][-1].isdigit(): return None
        v = list(x[i]); v[-d] = str((int(v[-d]) + by) % 10); x[i] = "".join(v); return x
    return f
def first_digit(i):
    def f(x):
        if i >= len(x) or not x[i] or float(x[i]) < .01: return None
        k = next(j for j, c in enumerate(x[i]) if c in "123456789")
        x[i] = x[i][:k] + str(int(x[i][k]) % 9 + 1) + x[i][k + 1:]; return x
    return f
ASSUME = ["the libsbp and libswiftnav stand-ins of /verif/shim behave like the real libraries (geoid: half the latitude less a quarter of the longitude)",
          "the libc's printf prints the number it is given"]
