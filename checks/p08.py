import ubxsbp as x, ubxgen as u, p01, vf, struct
KINDS = ["msg", "fwd", "bigfwd", "unknown", "badsum", "badsum2", "truncated", "hugelen", "limit", "nested", "noise", "syncs", "empty", "wronglen"]
CUTS = ["none", "edge", "preamble", "header", "body", "crc", "each"]
ENDS = ["eof", "error"]
def item(r, k):
    if k == "msg": return r.choice((x.pvt, x.att, x.pvt))(r)
    if k == "fwd": return x.monhw(r, r.choice((0, 1, 28, 60, 68, r.randrange(249), 248, 249)))
    if k == "bigfwd": return x.monhw(r, r.choice((250, 251, 252, 253, 254, 300, 1000)))
    if k == "unknown": return u.frame(r.choice((0x0A04, 0x0101, 0x0A0A, 0x0B09, 0xB562)), u.rb(r, r.choice((0, 1, 10, 40))))
    if k == "badsum": return u.frame(u.MONHW, u.rb(r, r.randrange(30)), bad=r.choice((1, 0x80, 0x100, 0x8000, 0xffff)))
    if k == "badsum2":
        f = bytearray(x.pvt(r)); f[r.choice((2, 3, r.randrange(6, len(f) - 2)))] ^= 1 << r.randrange(8)
        return bytes(f)
    if k == "truncated": f = x.pvt(r); return f[:r.randrange(1, len(f))]
    if k == "hugelen": return b"\xb5\x62" + bytes(r.randrange(256) for _ in range(2)) + struct.pack("<H", r.choice((4091, 4096, 65535, r.randrange(4091, 65536)))) + x.noise(r, r.choice((0, 1, 5, 20)))
    if k == "limit": n = r.choice((4089, 4090)); return u.frame(r.choice((u.MONHW, 0x0101)), bytes([r.randrange(256)]) * n)
    if k == "nested":   # a frame inside the payload of another
        f = r.choice((x.pvt, x.att))(r)
        return u.frame(r.choice((0x0101, u.MONHW)), x.noise(r, 3) + f, bad=r.choice((0, 0, 1)))
    if k == "noise": return x.noise(r, r.randrange(1, 30))
    if k == "syncs": return r.choice((b"\xb5", b"\xb5\xb5", b"\xb5\xb5\xb5", b"\x62\xb5", b"\xb5\x00\xb5", b"\xb5\x62\xb5"))
    if k == "empty": return u.frame(r.choice((u.MONHW, 0x0107, 0x0101)), b"")
    if k == "wronglen": # a supported message whose payload is shorter or longer than it should be
        f = r.choice((x.pvt, x.att))(r); t = struct.unpack(">H", f[2:4])[0]
        return u.frame(t, r.choice((f[6:-2] + u.rb(r, r.choice((1, 4, 20))), f[6:-2 - r.choice((1, 3, 8, 30))])))
def script(r, b):
    s, cut, last = b"", [], 0
    def at(p):
        nonlocal last
        if p > last: cut.append(p - last); last = p
    for i in b["items"]:
        d = item(r, i["k"]); a = len(s); s += d; e = len(s); c = i["c"]
        if c == "edge": at(a); at(e)
        if c == "preamble": at(a + 1)
        if c == "header": at(a + r.randrange(2, 7))
        if c == "body": at(a + r.randrange(1, len(d) + 1))
        if c == "crc": at(max(a + 1, e - r.choice((1, 2))))
        if c == "each" and len(d) < 400:
            for k in range(len(d)): at(a + k + 1)
        last = min(last, len(s))
    return x.scen(s, cut, 0 if b["ending"] == "eof" else r.choice((-1, -2, -5, -100)), sender=r.choice((None, None, 0, 1, 4660)))
def run(ctx):
    r = ctx.rng
    ctx.model_check("MC_UbxFraming", cfg_text=open(vf.SPEC + "/MC_UbxFraming.cfg").read().replace(
        "MaxLen = 6", "MaxLen = %d" % (6 if ctx.quick else 8)), timeout=800, need_actions=("ReadSome", "ReadEnd", "Deliver", "Resync"))
    exe = ctx.build("ubx_drv", x.SRCS())
    beh = ctx.generate("FrameGen", p01.gen_cfg(KINDS, CUTS, ENDS, 1))
    small = [k for k in KINDS if k not in ("limit", "bigfwd")]
    beh += ctx.generate("FrameGen", p01.gen_cfg(small, CUTS, ENDS, 7 if ctx.quick else 12),
                        simulate=300 if ctx.quick else 4000, depth=9 if ctx.quick else 14)
    beh += ctx.generate("FrameGen", p01.gen_cfg(KINDS, CUTS, ENDS, 5), simulate=30 if ctx.quick else 400, depth=7)
    beh += ctx.generate("FrameGen", p01.gen_cfg(["msg", "badsum", "syncs", "nested", "truncated"], CUTS, ENDS, 5),
                        simulate=150 if ctx.quick else 2000, depth=7)
    scen, labels = [], []
    for b in [{"items": [], "ending": "eof"}, {"items": [], "ending": "error"}] + beh:
        scen.append(script(r, b))
        labels.append(" ".join("%s/%s" % (i["k"], i["c"]) for i in b["items"]) + " " + b["ending"])
    g = ctx.conform(exe, scen, "Trace_UbxSbp", labels=labels)
    n = sum(len(e.get("outs", [])) for t in g for e in t[1])
    ctx.extra["messages"] = n
    ctx.samples = [{"behaviour": labels[i], "events": len(g[i][1])} for i in range(0, len(g), max(1, len(g) // 4))]
    if not ctx.violations:
        if n < 100: raise vf.MachineryError("too few messages")
        t = next(t for t in g if sum(e["e"] == "Call" and e["ret"] > 0 for e in t[1]) >= 2)[1]
        ctx.self_test("Trace_UbxSbp", t, lambda e: e[:1] + e[2:])
        t = next(t for t in g if any(o["k"] == "Fwd" and len(o["f"]) > 5 for e in t[1] for o in e.get("outs", [])))[1]
        def mut(e):
            next(o for c in e for o in c.get("outs", []) if o["k"] == "Fwd" and len(o["f"]) > 5)["f"][4][0] ^= 1
            return e
        ctx.self_test("Trace_UbxSbp", t, mut)
    ctx.assumptions = ["the byte source signals the end of input by returning 0 or a negative value",
                       "a frame of more than 4090 payload bytes is outside the receiver's capacity and is skipped up to its length field"]
