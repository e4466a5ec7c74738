import novgen, vf
KINDS = ["long", "short", "unsupported", "wrongsize", "badcrc", "badbyte", "truncated", "badhdrlen",
         "hugelen", "nested", "noise", "syncs"]
CUTS = ["none", "edge", "preamble", "header", "body", "crc", "each"]
ENDS = ["eof", "error", "small-eof", "small-error"]
SRCS = lambda: vf.sources("nov2sbp/parser") + [vf.VERIF + "/harness/nov_drv.cc"]

def gen_cfg(kinds, cuts, ends, n):
    q = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"
    return ("SPECIFICATION Spec\nCONSTANTS Kinds = %s\n Cuts = %s\n Ends = %s\n MaxItems = %d\n"
            "INVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (q(kinds), q(cuts), q(ends), n))

def run(ctx):
    ctx.model_check("MC_NovFraming", cfg_text=open(vf.SPEC + "/MC_NovFraming.cfg").read().replace(
        "MaxLen = 6", "MaxLen = %d" % (6 if ctx.quick else 8)), timeout=800,
        need_actions=("ReadSome", "ReadEnd", "Deliver", "Resync"))
    exe = ctx.build("nov_drv", SRCS())
    # every single item with every cut, then pairs and longer random ones
    beh = ctx.generate("FrameGen", gen_cfg(KINDS, CUTS, ENDS, 1))
    beh += ctx.generate("FrameGen", gen_cfg(KINDS + ["big", "exact"], CUTS, ENDS, 7 if ctx.quick else 12),
                        simulate=350 if ctx.quick else 4000, depth=9 if ctx.quick else 14)
    beh += ctx.generate("FrameGen", gen_cfg(["long", "short", "wrongsize", "nested", "truncated"], CUTS, ENDS, 5),
                        simulate=250 if ctx.quick else 2000, depth=7)
    scen, labels = [], []
    for b in [{"items": [], "ending": "eof"}, {"items": [], "ending": "error"}] + beh:
        scen.append(novgen.script(ctx.rng, b))
        labels.append(" ".join("%s/%s" % (i["k"], i["c"]) for i in b["items"]) + " " + b["ending"])
    g = ctx.conform(exe, scen, "Trace_Nov", labels=labels)
    ctx.samples = [{"behaviour": labels[i], "events": len(g[i][1])} for i in range(0, len(g), max(1, len(g) // 4))]
    rich = [x for x in g if sum(e["e"] == "Msg" for e in x[1]) >= 2]
    if rich and not ctx.violations:
        ev = rich[0][1]
        def drop(t):
            k = next(i for i, e in enumerate(t) if e["e"] == "Msg")
            return t[:k] + t[k + 1:]
        def wk(t):
            next(e for e in t if e["e"] == "Msg")["week"] ^= 1
            return t
        ctx.self_test("Trace_Nov", ev, drop)
        ctx.self_test("Trace_Nov", ev, wk)
    ctx.extra["deliveries"] = sum(e["e"] == "Msg" for x in g for e in x[1])
    ctx.assumptions = ["frames longer than 4096 bytes are outside the receiver's capacity and are treated as noise",
                       "the byte source signals the end of input by returning 0 or a negative value"]
