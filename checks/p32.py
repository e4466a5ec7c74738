import vf
from p03 import SRCS as RTCM

SRCS = lambda: [s for s in RTCM() if not s.endswith("rtcm_drv.c")] + vf.sources("libubx/src") + [vf.VERIF + "/harness/bits_drv.c"]
CFG = "CONSTANTS Wide = 64 Half = 32\nSPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
MAX = [32, 64, 32, 64, 32, 64, 64]          # widest field of each kind

def run(ctx):
    r = ctx.rng
    ctx.model_check("MC_BitField", cfg_text="CONSTANTS Wide = %d Half = %d Size = %d\nSPECIFICATION Spec\nINVARIANTS OnlyThat ReadBack\nCHECK_DEADLOCK FALSE\n"
                    % ((4, 3, 6) if ctx.quick else (6, 5, 8)), need_actions=("Write",))
    exe = ctx.build("bits_drv", SRCS())
    scen, labels = [], []
    def add(label, lines): scen.append("\n".join(lines) + "\n.\n"); labels.append(label)
    rnd = lambda n: bytes(r.choice((0, 255, r.randrange(256))) for _ in range(n))
    k = 1 if ctx.quick else 10
    def values(w):
        v = [0, 1, -1, 1 << (w - 1), (1 << (w - 1)) - 1, -(1 << (w - 1)), (1 << w) - 1, 1 << w, (1 << 63) - 1, r.getrandbits(w), -r.getrandbits(w), r.getrandbits(63) - (1 << 62)]
        return [x for x in v if -(1 << 63) < x < 1 << 64]
    def sm(w):
        # the magnitude is in a word of 32 bits
        return [x for x in values(min(w, 32)) if abs(x) < 1 << 63]
    # every kind and width, at every place in a byte: written and read
    for kind in range(7):
        for w in range(1, MAX[kind] + 1):
            if kind == 4 and w == 1: continue
            for _ in range(k):
                n = (w + 7) // 8 + 2
                lines = ["B " + vf.hexs(rnd(n))]
                for p in r.sample(range(8 * n - w + 1), 3) + [0, 8 * n - w]:
                    v = r.choice(sm(w) if kind == 4 else values(w))
                    lines.append("W %d %d %d %x" % (kind, p, w, v & (1 << 64) - 1))
                    # read again as every kind that is wide enough
                    for q in range(5):
                        if w <= MAX[q] and not (q == 4 and w == 1): lines.append("R %d %d %d" % (q, p, w))
                    for q in range(5):
                        w2 = r.randrange(2, min(MAX[q], 8 * n) + 1)
                        lines.append("R %d %d %d" % (q, r.randrange(8 * n - w2 + 1), w2))
                add("kind %d, %d bits" % (kind, w), lines)
    # widths that are none: nothing is written
    for kind in (0, 1, 2, 3, 5, 6):
        add("kind %d, no width" % kind, ["B " + vf.hexs(rnd(20))] + ["W %d %d %d %x" % (kind, r.randrange(40), w, r.getrandbits(64)) for w in (MAX[kind] + 1, MAX[kind] + 7, 128)])
    # a buffer filled by fields side by side
    for _ in range(30 * k):
        n = r.randrange(4, 40); p = 0; lines = ["B " + vf.hexs(rnd(n))]; back = []
        while p < 8 * n:
            kind = r.randrange(7); w = min(r.randrange(1, MAX[kind] + 1), 8 * n - p)
            if kind == 4 and w == 1: kind = 0
            v = r.choice(sm(w) if kind == 4 else values(w))
            lines.append("W %d %d %d %x" % (kind, p, w, v & (1 << 64) - 1))
            back.append("R %d %d %d" % ([0, 1, 2, 3, 4, 1, 3][kind], p, w)); p += w
        add("side by side", lines + back)
    # from a bit stream, to its end and past it
    for _ in range(30 * k):
        n = r.randrange(1, 24); ws = []; t = 0
        while t <= 8 * n and len(ws) < 60: ws.append(r.randrange(2, 33)); t += ws[-1]
        if r.random() < 0.4:
            ws.pop(); rest = 8 * n - sum(ws)
            if rest >= 2: ws.append(min(rest, 32))
        add("bit stream", ["T %s %s" % (vf.hexs(rnd(n)), " ".join(map(str, ws)))])
    gr = ctx.conform(exe, scen, "Trace_BitField", cfg_text=CFG, labels=labels)
    ev = [e for x in gr for e in x[1]]
    for name in ("Write", "Read", "Stream"): ctx.extra[name.lower() + "s"] = sum(e["e"] == name for e in ev)
    ctx.samples = [{"scenario": labels[i], "last": str(gr[i][1][-1])[:300]} for i in range(0, len(gr), max(1, len(gr) // 4))]
    if not ctx.violations:
        def mut(t):
            e = next(e for e in t if e["e"] == "Write")
            e["b"][-1] ^= 1
            return t
        ctx.self_test("Trace_BitField", gr[0][1], mut, cfg_text=CFG)
