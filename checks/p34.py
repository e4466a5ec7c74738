import json, os, shutil, subprocess
import vf

PROGS = {"ubx2sbp": [["--hnr"], ["-s", "42"], ["--sender_id", "0x1f"], ["--sender_id=7"], ["-s9"], ["-h"]],
         "ixcom2sbp": [["-s", "42"], ["--sender_id=0x42"], ["-h"]],
         "rtcm3tosbp": [["-o"], ["-w", "2080:123"], ["-d", "2020:5:6:7"], ["-s", "1"], ["-G"], ["-R", "-E"], ["-h"]],
         "nov2sbp": [["-h"]], "sbp2rtcm": [["-h"]]}
NAMES = ["in.dat", "out.dat", "a", "Data", "rtcm3", "with space", "0", "x-y", "ubx.bin.1", "-", "folder"]

def build(ctx):
    """the Rust programs of the repository on a stand-in of their C side"""
    w = ctx.work + "/rs"; os.makedirs(w)
    def sh(*c):
        r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=w)
        if r.returncode: raise vf.MachineryError("building the programs: %s failed:\n%s" % (c[0], r.stdout[-3000:]))
    rustc = ["rustc", "--edition", "2018", "--cap-lints", "allow", "-O", "-C", "panic=abort"]
    H = vf.VERIF + "/harness/"
    for c in ("libc", "lazy_static", "if_chain"): sh(*rustc, "--crate-type", "rlib", "--crate-name", c, H + "rs/%s.rs" % c)
    ext = [x for c in ("libc", "lazy_static", "if_chain") for x in ("--extern", "%s=lib%s.rlib" % (c, c))]
    sh(*rustc, "--crate-type", "rlib", "--crate-name", "gnss_converters", vf.REPO + "/rust/lib.rs", *ext)
    os.mkdir(w + "/c")
    sh("gcc", "-w", "-O1", "-fPIC", "-c", H + "prog_stub.c", "-o", "stub.o")
    open(w + "/e.c", "w").write("\n"); sh("gcc", "-c", "e.c", "-o", "e.o")
    libs = ["%s_main" % p for p in PROGS] + ["gnss_converters", "gnss_converters_extra", "swiftnav", "novatel-parser", "rtcm", "sbp", "ubx", "ixcom"]
    for l in libs: sh("ar", "rcs", "c/lib%s.a" % l, "e.o")
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(5) as ex:
        list(ex.map(lambda p: sh(*rustc, vf.REPO + "/rust/%s.rs" % p, "--extern", "gnss_converters=libgnss_converters.rlib", *ext, "-L", ".", "-L", "native=c",
                                 "-C", "link-arg=stub.o", "-o", w + "/" + p), PROGS))
    shutil.copy(H + "prog_run.py", w + "/run"); os.chmod(w + "/run", 0o755)
    ctx.log("built the programs")
    return w + "/run"

def run(ctx):
    r = ctx.rng
    ctx.model_check("MC_ProgramIo", cfg_text="CONSTANTS MaxOpts = %d Sizes = {1, 2%s}\nSPECIFICATION Spec\nINVARIANTS Whole InOrder NoOther NoNew Quiet\nCHECK_DEADLOCK FALSE\n"
                    % ((1, "") if ctx.quick else (2, ", 5")), need_actions=("Go", "Copy", "End"))
    exe = build(ctx)
    scen, labels = [], []
    data = lambda n: [r.randrange(256) for _ in range(n)]
    sizes = [0, 1, 2, 99, 100, 101, 255, 1024, 8191, 8192, 8193, 20000]
    def add(label, prog, opts, pos, files, stdin, plan):
        scen.append(json.dumps({"prog": prog, "opts": opts, "pos": pos, "files": files, "stdin": stdin, "plan": plan}) + "\n.\n"); labels.append("%s %s: %s" % (prog, label, " ".join(opts + pos)))
    def contents(big): return data(r.choice(sizes if big else sizes[:8]) + r.randrange(3) * r.randrange(40))
    def plan():
        p = ["w%d" % r.choice((1, 8, 263, r.randrange(1, 600))) for _ in range(r.randrange(3))]
        p += ["r%d" % r.choice((1, 2, 255, 256, 512, r.randrange(1, 3000))) for _ in range(r.randrange(4))]
        if r.random() < 0.8: p.append("R%d" % r.choice((1, 2, 7, 50, 256, 1024, 3000) if r.random() < 0.3 else (256, 264, 1024, 3000)))
        p += ["w%d" % r.choice((1, 8, 263, r.randrange(1, 600))) for _ in range(r.randrange(3))]
        r.random() < 0.3 and r.shuffle(p)
        return " ".join(p + ["x%d" % r.choice((0, 0, 0, 1, 2, 77, 255))])
    def opts(prog, n):
        o = []
        for _ in range(n): o += r.choice(PROGS[prog])
        return o
    k = 1 if ctx.quick else 8
    for prog in PROGS:
        for npos in range(3):
            for nopt in range(4):
                for j in range(3 * k):
                    o = opts(prog, nopt)
                    names = r.sample([x for x in NAMES if x not in o and x not in ("-", "folder")], 4)
                    pos = names[:npos]
                    files = [[n, contents(j == 0)] for n in names[:1] * (npos > 0) + names[2:2 + r.randrange(3)]]
                    if npos == 2 and r.random() < 0.5: files.append([names[1], contents(j == 1)])   # OUTPUT is there already
                    add("%d places" % npos, prog, o, pos, files, contents(j == 2), plan())
    gr = ctx.conform(exe, scen, "Trace_ProgramIo", labels=labels)
    ev = [e for x in gr for e in x[1]]
    ctx.extra["runs"] = len(gr)
    ctx.extra["bytes_read"] = sum(len(e["b"]) for e in ev if e["e"] == "Read")
    ctx.extra["bytes_written"] = sum(e["ret"] for e in ev if e["e"] == "Write")
    ctx.samples = [{"scenario": labels[i], "main": str(gr[i][1][1])[:300]} for i in range(0, len(gr), max(1, len(gr) // 4))]
    if not ctx.violations:
        def mut(t):
            e = next(e for e in t if e["e"] == "Read" and e["b"])
            e["b"][-1] ^= 1
            return t
        ctx.self_test("Trace_ProgramIo", next(x[1] for x in gr if any(e["e"] == "Read" and e["b"] for e in x[1])), mut)
