import ubxgen as u, vf
SRCS = lambda: vf.sources("libubx/src") + [vf.VERIF + "/harness/ubx_codec_drv.c", vf.SHIM[0]]

def run(ctx):
    r = ctx.rng
    ctx.model_check("MC_UbxLayout", need_actions=("Pick",), workers=1)
    exe = ctx.build("ubx_codec_drv", SRCS())
    scen, labels = [], []
    def add(label, msgs):
        scen.append("".join("D %d %s\n" % (t, vf.hexs(b)) for t, b in msgs) + ".\n")
        labels.append(label)
    k = 6 if ctx.quick else 150
    for t in u.TYPES:
        for _ in range(k):
            add("%04x random" % t, [(t, u.msg(t, u.payload(r, t))) for _ in range(4)])
        # followed by more bytes, with a length that is not the payload's
        add("%04x longer" % t, [(t, u.msg(t, u.payload(r, t) + u.rb(r, n), ln)) for n in (1, 7, 40)
                                for ln in ((None, 0, 3, 65535) if t != u.RAW else (None,))])
        # cut anywhere
        b = u.msg(t, u.payload(r, t, *((2,) if t in u.GROUP else ())))
        add("%04x truncated" % t, [(t, b[:n]) for n in range(len(b) + 1)])
        # every bit of the payload alone
        base = bytearray(u.FIXED[t] + 2 * u.GROUP.get(t, 0) + (4 if t == u.MEAS else 0))
        if t == u.RAWX: base[11] = 2
        if t == u.SFRBX: base[4] = 2
        if t == u.SAT: base[5] = 2
        if t == u.MEAS: base[4], base[5] = 8, 2 << 3
        cnt = {u.RAWX: (11,), u.SFRBX: (4,), u.SAT: (5,), u.MEAS: (5,)}.get(t, ())
        m = []
        for i in range(8 * len(base)):
            if i // 8 in cnt: continue
            c = bytearray(base); c[i // 8] ^= 1 << (i % 8)
            m.append((t, u.msg(t, bytes(c))))
        for j in range(0, len(m), 60): add("%04x single bits" % t, m[j:j + 60])
        # another message's class or identifier, in each single bit and whole
        m = []
        for i in range(16):
            c = bytearray(u.msg(t, u.payload(r, t))); c[i // 8] ^= 1 << (i % 8); m.append((t, bytes(c)))
        for o in u.TYPES: m.append((t, u.msg(o, u.payload(r, o) + bytes(100))))
        add("%04x other type" % t, m)
    for t, ns in ((u.RAWX, (32, 64, 128, 254, 255)), (u.SFRBX, (8, 9, 10, 11, 12, 16, 64, 255)), (u.SAT, (64, 99, 100, 101, 128, 255)),
                  (u.MEAS, (15, 16, 30, 31))):
        for n in ns:
            add("%04x count %d" % (t, n), [(t, u.msg(t, u.payload(r, t, n)))])
            add("%04x count %d short" % (t, n), [(t, u.msg(t, u.payload(r, t, n))[:-1])])
    # ESF-RAW: the count comes from the length
    for ln in (0, 1, 3, 4, 5, 11, 12, 13, 19, 20, 28, 4 + 8 * 127, 4 + 8 * 128 - 1, 4 + 8 * 128, 4 + 8 * 128 + 1, 4 + 8 * 128 + 7,
               4 + 8 * 129, 32768, 65535):
        add("1003 length %d" % ln, [(u.RAW, u.msg(u.RAW, u.rb(r, min(ln, 1100) + 8), ln))])
        add("1003 length %d short" % ln, [(u.RAW, u.msg(u.RAW, u.rb(r, max(0, min(ln, 1100) - 1)), ln))])
    # histories: a message decoded after others
    for _ in range(k):
        add("mixed", [(t, u.msg(t, u.payload(r, t))) for t in [r.choice(u.TYPES) for _ in range(8)]])
    for n in (0, 1, 2, 3, 7, 255, 256, 300, 1000):
        scen.append("".join("C %s\n" % vf.hexs(x) for x in (u.rb(r, n), b"\xff" * n, bytes(n))) + ".\n"); labels.append("checksum")
    g = ctx.conform(exe, scen, "Trace_UbxCodec", labels=labels)
    ctx.extra["messages_decoded"] = sum(e.get("rc") == 0 for x in g for e in x[1])
    ctx.extra["messages_rejected"] = sum(e.get("rc", 0) != 0 for x in g for e in x[1])
    ctx.samples = [{"scenario": labels[i], "first": str(g[i][1][0])[:300]} for i in range(0, len(g), max(1, len(g) // 4))]
    if not ctx.violations:
        def mut(t): t[0]["f"][-1][0] ^= 1; return t
        ctx.self_test("Trace_UbxCodec", g[0][1], mut)
    ctx.assumptions = ["the encoders are given a buffer that holds the largest message of the type (the SFRBX encoder clears "
                       "room for ten words whatever the count)",
                       "the calibration time tag is not looked at when the message has none"]
