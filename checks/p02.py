import novgen, vf, p01, struct
IDS = novgen.IDS

def run(ctx):
    rng = ctx.rng
    exe = ctx.build("nov_drv", p01.SRCS())
    # the layouts themselves: sizes the manual gives
    ctx.model_check("MC_NovLayout", need_actions=("Pick",), workers=1)
    scen, labels = [], []
    def add(label, frames, slots=None):
        d = b"".join(frames)
        scen.append("%s - 0 %s\n" % (d.hex(), ",".join(map(str, slots or IDS))))
        labels.append(label)
    mk = [novgen.long_frame, lambda m, b, w, s, r: novgen.short_frame(m, b, w, s)]
    n = 25 if ctx.quick else 400
    for mid in IDS:
        for h in (0, 1):
            for k in range(n):
                if mid == 140:
                    nr = rng.choice((0, 1, 2, 5, 10)) if h else rng.choice((1, 3, 20, 62, 63, 64, 70, 169))
                    b = novgen.body(rng, 140, nr)
                else:
                    b = novgen.rnd_bytes(rng, novgen.SIZES[mid])
                w, s = rng.randrange(65536), rng.randrange(-2**31, 2**31)
                add("%d/%d random" % (mid, h), [mk[h](mid, b, w, s, rng)])
            # every byte of the body alone: walking ones show each field's place
            size = 28 if mid == 140 else novgen.SIZES[mid]
            fr = []
            for j in range(size * 8):
                b = bytearray(size)
                if mid == 140:
                    b[0] = 1
                    if j < 32:
                        continue
                b[j // 8] |= 1 << (j % 8)
                fr.append(mk[h](mid, bytes(b), 0, 0, rng))
                if len(fr) == 40:
                    add("%d/%d single bits" % (mid, h), fr)
                    fr = []
            add("%d/%d single bits" % (mid, h), fr or [mk[h](mid, novgen.body(rng, mid), 0, 0, rng)])
    # header fields, bit by bit
    for h in (0, 1):
        fr = [mk[h](99, novgen.body(rng, 99), 1 << j if j < 16 else 0,
                    struct.unpack("<i", struct.pack("<I", 1 << (j - 16)))[0] if j >= 16 else 0, rng) for j in range(48)]
        add("header bits %d" % h, fr)
    # the same parser decodes different messages one after another: nothing may linger
    for k in range(20 if ctx.quick else 300):
        add("mixed", [mk[rng.randrange(2)](m, novgen.body(rng, m), rng.randrange(65536), rng.randrange(10**6), rng)
                      for m in [rng.choice(IDS) for _ in range(12)]])
    g = ctx.conform(exe, scen, "Trace_NovBody", labels=labels)
    ctx.samples = [{"scenario": labels[i], "first": next((e for e in g[i][1] if e["e"] == "Msg"), None)}
                   for i in range(0, len(g), max(1, len(g) // 3))]
    ctx.extra["messages_decoded"] = sum(e["e"] == "Msg" for x in g for e in x[1])
    if not ctx.violations:
        def mut(t):
            e = next(e for e in t if e["e"] == "Msg" and e["body"])
            e["body"][-1][0] ^= 1
            return t
        ctx.self_test("Trace_NovBody", next(x[1] for x in g if any(e["e"] == "Msg" and e["body"] for e in x[1])), mut)
    ctx.assumptions = ["floating-point fields are compared as bit patterns"]
