import ixcomgen as x, p01, vf, struct
KINDS = ["imu", "wheel", "other", "badsum", "short", "long", "truncated", "tiny", "huge", "noise", "syncs", "header"]
CUTS = ["none", "edge", "preamble", "header", "body", "crc", "each"]
SRCS = lambda: vf.sources("libixcom/src") + [vf.C + "/gnss_converters/src/ixcom_sbp.c", vf.VERIF + "/harness/ixcom_drv.c"] + vf.SHIM
def item(r, k):
    if k == "imu": return x.imu(r)
    if k == "wheel": return x.wheel(r)
    if k == "other": return x.frame(r.choice((1, 3, 0x17, 0x20, 255)), x.rb(r, r.choice((0, 1, 8, 24, 60))), bad=r.choice((0, 1)))
    if k == "badsum": return r.choice((x.imu, x.wheel))(r, bad=r.choice((1, 0x8000, 0x0101)))
    if k == "short":   # a known message that is shorter than it must be
        f = r.choice((x.imu, x.wheel))(r); n = r.choice((len(f) - 1, len(f) - 4, 20, 24, 27)); return f[:4] + struct.pack("<H", n) + f[6:n]
    if k == "long":
        f = r.choice((x.imu, x.wheel))(r); n = len(f) + r.choice((1, 4, 16)); b = f[:4] + struct.pack("<H", n) + f[6:] + x.rb(r, n - len(f) - 2)
        return b + struct.pack("<H", x.crc16(b))
    if k == "truncated": f = x.imu(r); return f[:r.randrange(1, len(f))]
    if k == "tiny": f = r.choice((x.imu, x.wheel))(r); return f[:4] + struct.pack("<H", r.choice((0, 1, 2, 15, 16, 17, 19))) + f[6:]
    if k == "huge": f = r.choice((x.imu, x.wheel))(r); return f[:4] + struct.pack("<H", r.choice((4096, 4097, 8192, 65535, 0x7e7e))) + f[6:]
    if k == "limit": n = r.choice((4094, 4095)); return x.frame(9, bytes([r.randrange(256)]) * (n - 20))
    if k == "noise": return bytes(b for b in x.rb(r, r.randrange(1, 40)) if b != 0x7e or r.random() < 0.2)
    if k == "syncs": return b"\x7e" * r.choice((1, 2, 3, 16, 17))
    if k == "header": return x.imu(r)[:16]
def script(r, b):
    s, cut, last = b"", [], 0
    def at(p):
        nonlocal last
        if p > last: cut.append(p - last); last = p
    for i in b["items"]:
        d = item(r, i["k"]); a = len(s); s += d; e = len(s); c = i["c"]
        if c == "edge": at(a); at(e)
        if c == "preamble": at(a + 1)
        if c == "header": at(a + r.randrange(2, 17))
        if c == "body": at(a + r.randrange(1, len(d) + 1) if d else a)
        if c == "crc": at(max(a + 1, e - r.choice((1, 2))))
        if c == "each" and len(d) < 400:
            for k in range(len(d)): at(a + k + 1)
        last = min(last, len(s))
    end = 0 if b["ending"] == "eof" else r.choice((-1, -2, -100))
    return "S %s %s %d %s\n.\n" % (vf.hexs(s), ",".join(map(str, cut)) or "-", end, r.choice(("-", "-", "0", "65535", "1")))
def run(ctx):
    r = ctx.rng
    ctx.model_check("MC_IxcomFraming", cfg_text=open(vf.SPEC + "/MC_IxcomFraming.cfg").read().replace(
        "MaxLen = 5", "MaxLen = %d" % (5 if ctx.quick else 7)), timeout=800, need_actions=("ReadSome", "ReadEnd", "Deliver", "Resync"))
    exe = ctx.build("ixcom_drv", SRCS())
    scen, labels = [], []
    def add(label, text): scen.append(text + ".\n"); labels.append(label)
    beh = ctx.generate("FrameGen", p01.gen_cfg(KINDS + ["limit"], CUTS, ["eof", "error"], 1))
    beh += ctx.generate("FrameGen", p01.gen_cfg(KINDS, CUTS, ["eof", "error"], 7 if ctx.quick else 12), simulate=400 if ctx.quick else 5000, depth=9 if ctx.quick else 14)
    beh += ctx.generate("FrameGen", p01.gen_cfg(["imu", "wheel", "short", "badsum"], CUTS, ["eof"], 6), simulate=150 if ctx.quick else 2000, depth=8)
    for b in [{"items": [], "ending": "eof"}, {"items": [], "ending": "error"}] + beh:
        scen.append(script(r, b)); labels.append(" ".join("%s/%s" % (i["k"], i["c"]) for i in b["items"]) + " " + b["ending"])
    stream = lambda b: "S %s - 0 -\n" % vf.hexs(b)
    # a short message over the remains of a longer one: its checksum field is elsewhere
    for _ in range(10):
        body = x.rb(r, 24)
        for n in (28, 30, 40, 42, 43):
            # the stale bytes where the footer would be are the checksum of the short message
            f = struct.pack("<BBBBHHII", 0x7e, 0, 1, 2, n, 2200, 5, 6) + body + b"\0\0" if n > 42 else struct.pack("<BBBBHHII", 0x7e, 0, 1, 2, n, 2200, 5, 6) + x.rb(r, n - 16)
            f = f[:n]
            first = x.frame(9, x.rb(r, 22) + b"\0\0" + struct.pack("<H", x.crc16(f[:n - 2])))
            add("stale footer", stream(first[:40] + x.rb(r, 2) + struct.pack("<H", x.crc16(f[:n - 2])) + first[44:] + f + x.imu(r)))
        n = 24
        f = struct.pack("<BBBBHHII", 0x7e, 0x16, 1, 2, n, 2200, 5, 6) + x.rb(r, 8)
        first = x.frame(9, x.rb(r, 10) + struct.pack("<H", x.crc16(f[:n - 2])) + x.rb(r, 4))
        add("stale footer", stream(first[:26] + struct.pack("<H", x.crc16(f[:n - 2])) + first[28:] + f + x.wheel(r)))
    for k in (1, 99, 100, 101, 102, 201, 260, 720): add("%d samples" % k, stream(b"".join(x.imu(r, vals=[0.1] * 6) for _ in range(k))))
    n = 60 if ctx.quick else 1500
    for _ in range(n): add("values", stream(b"".join(r.choice((x.imu, x.wheel))(r) for _ in range(8))))
    acc = [39.2266 / 32768 * v for v in (0.49, 0.51, -0.49, -0.51, 1, 100.3, 32766.4, 32766.6, 32767.4, -32767.4, -32767.6, -32768.4)]
    gyr = [2.181661565 / 32768 * v for v in (0.49, 0.51, -0.49, -0.51, 1, 100.3, 32766.4, 32766.6, 32767.4, -32767.4, -32767.6, -32768.4)]
    for i in range(6):
        add("axis %d" % i, stream(b"".join(x.imu(r, vals=[(v if j == i else 0.01) for j in range(6)]) for v in (acc if i < 3 else gyr))))
    add("times", stream(b"".join(x.frame(0x16, x.f4(1.5) + b"\1\0\0\0", sec=s, usec=u) + x.frame(0, bytes(24), sec=s, usec=u) for s in (0, 1, 4294, 4295, 604799) for u in (0, 3, 4, 999, 1000, 500000, 999999))))
    # the library alone
    for t in (0, 0x16):
        size = 44 if t == 0 else 28
        mk = x.imu if t == 0 else x.wheel
        lib = lambda b, w=t: "L %d %s\n" % (w, vf.hexs(b))
        for _ in range(10 if ctx.quick else 200): add("library %d" % t, "".join(lib(x.frame(t, x.rb(r, size - 20), **x.when(r))) for _ in range(5)))
        m = []
        f = bytearray(mk(r))
        for i in range(8 * size): g = bytearray(f); g[i // 8] ^= 1 << (i % 8); m.append(lib(bytes(g)))
        for j in range(0, len(m), 60): add("library %d damaged bit" % t, "".join(m[j:j + 60]))
        m = []
        for i in range(8 * (size - 2)):
            if i // 8 in (0, 1, 4, 5): continue
            g = bytearray(x.frame(t, bytes(size - 20))[:-2]); g[i // 8] ^= 1 << (i % 8); m.append(lib(bytes(g) + struct.pack("<H", x.crc16(g))))
        for j in range(0, len(m), 60): add("library %d single bits" % t, "".join(m[j:j + 60]))
        for ln in (0, 1, 2, 3, 19, 20, 28, 29, 43, 44, 45, 255, 256, 65535):
            b = mk(r); b = b[:4] + struct.pack("<H", ln) + b[6:-2]; c = x.crc16(b[:max(0, min(len(b), ln - 2))])
            add("library %d length %d" % (t, ln), lib(b + struct.pack("<H", c)))
        add("library %d other" % t, lib(mk(r) if True else b"", 0) + "L %d %s\n" % (0, vf.hexs(x.frame(0x16, bytes(24)))) + "L 22 %s\n" % vf.hexs(x.frame(0, bytes(24))))
    for k in range(0, 12): add("checksum", "".join("C %s\n" % vf.hexs(x.rb(r, q)) for q in (0, 1, 2, k, 5 * k, 40)))
    add("checksum of every byte", "".join("C %s\n" % vf.hexs(bytes([j])) for j in range(256)))
    g = ctx.conform(exe, scen, "Trace_Ixcom", labels=labels)
    kinds = {}
    for t in g:
        for e in t[1]:
            for o in e.get("outs", []): kinds[o["k"]] = kinds.get(o["k"], 0) + 1
    ctx.extra["messages"] = kinds
    ctx.samples = [{"scenario": labels[i], "events": len(g[i][1])} for i in range(0, len(g), max(1, len(g) // 5))]
    if not ctx.violations:
        if min(kinds.get(k, 0) for k in ("ImuRaw", "ImuAux", "Odometry", "Wheeltick")) < 100: raise vf.MachineryError("too little: %s" % kinds)
        def mut(t): t[1]["outs"][0]["f"][2][0] ^= 3; return t
        ctx.self_test("Trace_Ixcom", g[labels.index("axis 0")][1], mut)
        ctx.self_test("Trace_Ixcom", g[labels.index("101 samples")][1], lambda t: t[:7] + t[8:8] + [dict(t[8], outs=t[8]["outs"] * 2)] + t[9:])
    ctx.assumptions = ["values of IMU and wheel messages are numbers (not NaN) and the wheel speed in mm/s fits 32 bits",
                       "a sync byte followed by a possible length is taken for a message, as messages that are not decoded carry no checksum the receiver tests"]
