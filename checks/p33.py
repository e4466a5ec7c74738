import rtcmgen as g, vf
from p32 import SRCS

def run(ctx):
    r = ctx.rng
    ctx.model_check("MC_StaText", cfg_text="CONSTANTS Alphabet = {0, 65, 255} MaxLen = %d Rooms = {1, 2, 3, 9}\nSPECIFICATION Spec\n"
                    "INVARIANTS Fits NoNul Begins Whole Header\nCHECK_DEADLOCK FALSE\n" % (5 if ctx.quick else 8), need_actions=("Type", "Decode"))
    exe = ctx.build("bits_drv", SRCS())
    scen, labels = [], []
    def add(label, lines): scen.append("\n".join(lines) + "\n.\n"); labels.append(label)
    k = 1 if ctx.quick else 10
    def fw(text):
        b = g.Bits().u(999, 12).u(25, 8).u(len(text), 8)
        for c in text: b.u(c, 8)
        return vf.hexs(b.bytes())
    char = lambda nul: r.choice([0] * nul + [1, 32, 65, 127, 128, 255] + [r.randrange(32, 127)] * 4)
    text = lambda n, nul=0: bytes(char(nul) for _ in range(n))
    # a version of every length around the room there is
    for n in [0, 1, 2, 3, 15, 16, 31, 32, 33, 63, 64, 100, 127, 128, 254, 255] + [r.randrange(256) for _ in range(10 * k)]:
        rooms = [x for x in {1, 2, n - 1, n, n + 1, n + 2, 64, 128, 255, r.randrange(1, 256)} if 1 <= x <= 255]
        add("version of %d characters" % n, ["F %s %d" % (fw(text(n, i % 2)), x) for x in rooms for i in range(2)])
    # the configuration: words of four characters, the last one first
    def config(t, fill=0):
        b = g.Bits().u(999, 12).u(2, 8).u(r.getrandbits(32) if fill else 0, 32).u(0, 6)
        t = t + bytes(16 - len(t))
        for i in range(4):
            for c in t[4 * i:4 * i + 4][::-1]: b.u(c, 8)
        return vf.hexs(b.bytes())
    for n in range(17):
        add("configuration of %d characters" % n, ["C %s %d" % (config(text(n, i % 2), 1), x) for x in (16, 17, 32, 255) for i in range(2 * k)])
    for i in range(16):
        add("configuration with NUL at %d" % i, ["C %s 16" % config(text(i) + b"\0" + text(15 - i), 1) for _ in range(2 * k)])
    # RF status: none that is cut off is taken
    def status(mask, rest=0):
        return vf.hexs(g.Bits().u(999, 12).u(24, 8).u(r.getrandbits(30), 30).u(mask, 8).u(0, 6).bytes() + bytes(r.randrange(256) for _ in range(rest)) + bytes(120))
    for i in range(4 * k):
        add("status cut off", ["S %s %d" % (status(r.choice((0, r.randrange(256))), 90), n) for n in (0, 11, 12, 19, 20, 21, 49, 50, 51, 57)])
        add("status alone", ["S %s 58" % status(0)])
    for i in range(8 * k):
        m = r.choice([1, 2, 4, 8, 16, 4, r.randrange(256)])
        add("status %d" % m, ["S %s %d" % (status(m, 90), n) for n in [60, 64, 72, 88, 96] + [r.randrange(60, 700) for _ in range(8)]])
    gr = ctx.conform(exe, scen, "Trace_StaText", labels=labels)
    ev = [e for x in gr for e in x[1]]
    for name in ("Version", "Config", "Status"): ctx.extra[name.lower()] = sum(e["e"] == name for e in ev)
    ctx.extra["status_taken"] = sum(e["e"] == "Status" and e["rc"] == 0 for e in ev)
    ctx.samples = [{"scenario": labels[i], "first": str(gr[i][1][0])[:300]} for i in range(0, len(gr), max(1, len(gr) // 4))]
    if not ctx.violations:
        def mut(t):
            e = next(e for e in t if e["s"])
            e["s"][0] ^= 1
            return t
        ctx.self_test("Trace_StaText", next(x[1] for x in gr if any(e["e"] == "Version" and e["s"] for e in x[1])), mut)
