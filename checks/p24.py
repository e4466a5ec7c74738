import struct, random
import sbp2rtcm as q, r2sx as e, vf
KINDS = ["obs", "half", "pos", "pos", "bias", "ssr", "osr", "eph", "log", "other", "short", "height", "desc", "mode", "fcn", "leap"]
def position(r):
    v = [r.gauss(0, 1) for _ in range(3)]; n = sum(x * x for x in v) ** 0.5 or 1
    p = [x / n * r.uniform(6.33e6, 6.4e6) for x in v]
    p = [r.choice((x, x, round(x, 4), round(x, 4) + 5e-5 * r.choice((-.98, .98)), 0.0, -0.00004, 0.00006)) for x in p] if r.random() < 0.4 else p
    if r.random() < 0.1: p[r.randrange(3)] = r.choice((13743895.3471, -13743895.3472, 13743895.34705, -13743895.34715))
    return struct.pack("<ddd", *p)
def text(r, n): return bytes(r.randrange(1, 256) for _ in range(n)) if r.random() < 0.5 else bytes(r.randrange(32, 127) for _ in range(n))
def bias(r): return struct.pack("<Bhhhh", r.choice((0, 15, r.randrange(256))), *[r.choice((0, 1, -1, 32767, -32768, -32767, r.randrange(-32768, 32768))) for _ in range(4)])
class Life:
    def __init__(s, r, mode):
        s.r, s.mode, s.t, s.snd = r, mode, r.randrange(600000) * 1000, r.randrange(65536)
        s.fcn = {i: f - 1 for i, f in q.fcns(r)} if mode == "api" else {}
    def step(s, k):
        r = s.r; snd = s.snd if r.random() < 0.7 else r.choice((0, 4095, 4096, 65535, r.randrange(65536)))
        api = s.mode == "api"
        any_ = lambda n: bytes(r.randrange(256) for _ in range(n))
        if k in ("obs", "half"):
            s.t = (s.t + 1000) % q.WEEK
            o = q.some(r, r.randrange(1, 5), s.fcn, 0.02, legacy=True)
            return [q.obs(snd, 2200, s.t, 2, 0, o)] + ([q.obs(snd, 2200, s.t, 2, 1, [])] if k == "obs" else [])
        if k == "pos": return [q.S(q.T["pos"], snd, position(r))]
        if k == "bias": return [q.S(q.T["bias"], snd, bias(r))]
        if k == "ssr": return [q.S(r.choice(q.T["ssr"]), snd, any_(r.choice((0, 1, 20, 254, 255, r.randrange(256)))))]
        if k == "osr": return [q.S(q.T["osr"], snd, any_(r.choice((0, 1, 255, r.randrange(256)))))]
        if k == "eph": return [q.eph(r)]
        if k == "log": return [q.S(q.T["log"], snd, bytes([r.randrange(8)]) + text(r, r.choice((1, 2, 253, 254, r.randrange(255)))))]
        if k == "other": return [q.S(r.choice((0, 23, 257, 258, 521, 142, 97, 65535, 1511, 1531, 75)), snd, any_(r.randrange(256)))]
        if k == "short": return [q.S(*r.choice(((74, snd, any_(r.randrange(11))), (1025, snd, any_(r.randrange(2))))))]
        if not api: return [q.S(q.T["pos"], snd, position(r))]
        if k == "height": return ["H:%d" % r.choice((0, 5, 4, 1, 655350, 655345, 655351, 655355, 660000, -1, -5, 1234567, r.randrange(655350)))]
        if k == "desc": return ["D:%s,%s" % (vf.hexs(text(r, r.choice((0, 1, 20, 30, 31, 32, 40)))), vf.hexs(text(r, r.choice((0, 1, 20, 30, 31, 32, 60)))))]
        if k == "mode": return ["M:%d" % r.choice((0, 1, 3, 4, 5, 5, 4, 6, 7))]
        if k == "fcn":
            sat, f = r.choice((0, 1, 28, 29, r.randrange(1, 29), 255)), r.choice((0, 1, 14, 15, 16, 255, r.randrange(1, 15)))
            if sat in range(1, 29): s.fcn[sat] = f - 1 if 1 <= f <= 14 else None
            return ["F:%d,%d" % (sat, f)]
        return ["L:%d" % r.choice((18, 17, 19, 0, -1))]
def run(ctx):
    r, n = ctx.rng, 1 if ctx.quick else 14
    scen, labels = [], []
    def add(l, mode, steps): scen.append(q.scen(mode, steps)); labels.append(l)
    beh = e.ep(ctx, KINDS, 1, steps=["0"]) + e.ep(ctx, KINDS, 2, steps=["0"], sim=60 * n) + e.ep(ctx, KINDS, 10, steps=["0"], sim=90 * n)
    for b in beh:
        mode = r.choice(("api", "api", "conv", "main")); L = Life(r, mode)
        steps = q.settings(None, r.choice((18, 18, None)), [(s, f + 1) for s, f in L.fcn.items()]) if mode == "api" else []
        if mode != "api" or r.random() < 0.3: steps.append("W:%s" % ",".join(str(r.choice((1, 2, 3, 7, 64, 255, 1000, 4096))) for _ in range(r.randrange(1, 5))))
        for i in b["items"]: steps += L.step(i["k"])
        add(mode + " " + " ".join(i["k"] for i in b["items"]), mode, steps)
    for m in ("api", "conv", "main"):
        for l in range(256): add("text of %d bytes through %s" % (l, m), m, [q.S(q.T["log"], r.randrange(65536), bytes([6]) + text(r, l - 1) if l else b"")])
        for l in range(0, 256, 1 if not ctx.quick else 5): add("SSR of %d bytes through %s" % (l, m), m, [q.S(t, r.randrange(65536), bytes(r.randrange(256) for _ in range(l))) for t in (q.T["ssr"] + (q.T["osr"],))])
        for name in ("/gnss_converters/test/data/nmea.sbp",):
            ms = q.recorded(ctx, name, range(65536))
            for k in range(3 * n):
                a = r.randrange(len(ms) - 60)
                ok = [x for x in ms[a:a + 60] if x[0] in (72, 74, 117, 138, 139, 1025, 97, 258)]
                add("%s from %d through %s" % (name, a, m), m, (q.settings(r.choice((0, 5)), 18, q.fcns(r)) if m == "api" else []) + [q.S(*x) for x in ok[:40]])
    for m in ("conv", "main"):     # large epochs: everything comes out of the call's buffer
        for _ in range(3 * n):
            b = [{"s": 1, "t": t, "size": 15, "cnt": i + 1, "n": 14} for t in (0, 1) for i in range(15)]
            add("large epoch through %s" % m, m, ["W:%s" % r.choice(("1", "3,1000", "4096", "255"))] + q.epoch_script(r, b, settings_=[]))
    for h in list(range(0, 40)) + list(range(655330, 655360)) + [-1, -10, 655360, 1310720, 2147483647]:
        add("height %d" % h, "api", ["H:%d" % h, q.S(q.T["pos"], 5, position(r))])
    g = q.check(ctx, scen, labels, {1006: 60, 1008: 40, 1033: 40, 1230: 15, 1029: 100, 4062: 100})
    if not ctx.violations:
        q.corrupt(ctx, g, 1006, q.flip(12, 3)); q.corrupt(ctx, g, 1008, q.flip(2, 1)); q.corrupt(ctx, g, 1230, q.drop); q.corrupt(ctx, g, 4062, q.flip(4, 1)); q.corrupt(ctx, g, 1029, q.flip(2, 1))
    ctx.assumptions = q.ASSUME + ["base stations are on the earth"]
