"""Shared machinery: build from /repo's working tree, run TLC, run drivers,
validate traces, report.  Exit status: 0 held, 1 violation, 3 machinery error."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
C = REPO + "/c"
SPEC = VERIF + "/spec"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(2, min(8, os.cpu_count() or 4))

INCS = [VERIF + "/shim/include", VERIF + "/harness"] + [C + "/" + d for d in (
    "librtcm/include", "libubx/include", "libixcom/include",
    "gnss_converters/include", "gnss_converters/src",
    "gnss_converters_extra/include", "gnss_converters_extra/src",
    "nov2sbp", "nov2sbp/src", "nov2sbp/parser", "rtcm3tosbp/src", "rtcm3tosbp/include",
    "ubx2sbp/include", "ixcom2sbp/include", "sbp2rtcm/include",
    "librtcm/src", "libubx/src", "libixcom/src")]


class MachineryError(Exception):
    pass


def sources(*dirs, exclude=()):
    """All non-test, non-main sources below directories of /repo/c."""
    out = []
    for d in dirs:
        top = os.path.join(C, d)
        for root, subdirs, files in os.walk(top):
            subdirs[:] = [x for x in subdirs if x not in ("test", "tests", "catch", "third_party")]
            for f in files:
                if not f.endswith((".c", ".cc", ".cpp")):
                    continue
                if f.startswith("test_") or f.endswith(("_main.c", "_main.cc")) or f in exclude:
                    continue
                out.append(os.path.join(root, f))
    return sorted(out)


SHIM = [VERIF + "/shim/src/shim_swiftnav.c", VERIF + "/shim/src/shim_sbp.c"]
LIB_ALL_C = ("librtcm/src", "libubx/src", "libixcom/src", "gnss_converters/src",
             "gnss_converters_extra/src")


class Result:
    pass


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random("%s/%d" % (pid, seed))
        self.work = tempfile.mkdtemp(prefix="vf.%s." % pid, dir="/tmp")
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.extra = {}
        self.samples = []
        self.violations = []      # (message, replay path)
        self.known = []
        self.known_seen = set()   # keys of deviations met (operator Known of the specifications)
        self.assumptions = []
        self.level = "model_checking"

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, file=sys.stderr, flush=True)

    # ---------------------------------------------------------------- build
    def build(self, name, srcs, flags=(), cxx=False, defs=(), libs=("-lm",), asan=True, opt="-O1"):
        od = os.path.join(self.work, "o_" + name)
        os.makedirs(od, exist_ok=True)
        base = ["-w", "-g", opt, "-D_GNU_SOURCE", "-ftrivial-auto-var-init=pattern"]
        if asan:
            base += ["-fsanitize=address,bounds", "-fno-sanitize-recover=bounds",
                     "-fno-omit-frame-pointer"]
        base += list(defs) + list(flags)
        inc = ["-I" + i for i in INCS]

        def one(s):
            o = os.path.join(od, hashlib.md5(s.encode()).hexdigest() + ".o")
            cc = ["gcc", "-std=gnu99"] if s.endswith(".c") else ["g++", "-std=gnu++14"]
            r = subprocess.run(cc + base + inc + ["-c", s, "-o", o], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise MachineryError("compiling %s failed:\n%s" % (s, r.stdout[-3000:]))
            return o
        with ThreadPoolExecutor(NPROC) as ex:
            objs = list(ex.map(one, srcs))
        exe = os.path.join(self.work, name)
        cxx = cxx or any(not s.endswith(".c") for s in srcs)
        san = ["-fsanitize=address,bounds"] if asan else []
        r = subprocess.run([("g++" if cxx else "gcc")] + san + list(flags) + objs + ["-o", exe] + list(libs),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise MachineryError("linking %s failed:\n%s" % (name, r.stdout[-3000:]))
        self.log("built", name, "(%d sources)" % len(srcs))
        return exe

    # ------------------------------------------------------------------ TLC
    def java(self, module, cfg, args=(), env=None, workers=1, timeout=600, xmx="3g"):
        md = tempfile.mkdtemp(prefix="md.", dir=self.work)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        cmd = ["java", gc, "-Xss256m", "-Xmx" + xmx, "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-config", cfg, "-metadir", md, "-noGenerateSpecTE",
               *args, module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
            out, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as x:
            out = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
            rc = -1
        finally:
            shutil.rmtree(md, ignore_errors=True)
        res = Result()
        res.out, res.rc = out, rc
        m = re.findall(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found", out)
        res.generated, res.distinct = (tuple(int(x.replace(",", "")) for x in m[-1]) if m else (0, 0))
        return res

    def cfg(self, text):
        fd, p = tempfile.mkstemp(suffix=".cfg", dir=self.work)
        os.write(fd, text.encode())
        os.close(fd)
        return p

    def model_check(self, module, cfg=None, cfg_text=None, timeout=600, need_actions=(), workers=NPROC,
                    coverage=True, args=()):
        """Exhaustive run.  The model is ours: a failure is a machinery error."""
        c = self.cfg(cfg_text) if cfg_text else os.path.join(SPEC, cfg or module + ".cfg")
        r = self.java(module, c, args=(["-coverage", "1"] if coverage else []) + list(args),
                      workers=workers, timeout=timeout, xmx="8g")
        if r.rc != 0 or "No error has been found" not in r.out:
            raise MachineryError("model %s failed (rc %s):\n%s" % (module, r.rc, filt(r.out)[-3000:]))
        acts = {}
        for m in re.finditer(r"^<(\S+) line [^>]*>: (\d+):(\d+)", r.out, re.M):
            n = m.group(1).split("!")[-1]
            acts[n] = acts.get(n, 0) + int(m.group(3))
        dead = [a for a in need_actions if not acts.get(a)]
        if coverage and dead:
            raise MachineryError("model %s: actions never taken: %s (%s)" % (module, dead, acts))
        self.states += r.distinct
        self.transitions += r.generated
        self.extra.setdefault("models", {})[module] = {
            "distinct_states": r.distinct, "generated": r.generated, "actions": acts}
        self.log("model", module, r.distinct, "distinct states", r.generated, "generated")
        return r

    def generate(self, module, cfg_text, simulate=None, depth=20, timeout=300, prefix="GEN "):
        """Behaviours printed by TLC as JSON: exhaustively, or `simulate` random ones."""
        args = []
        if simulate:
            args = ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(self.seed)]
        r = self.java(module, self.cfg(cfg_text), args=args, workers=1, timeout=timeout)
        got = []
        for line in r.out.splitlines():
            line = line.strip()
            if line.startswith('"' + prefix):
                got.append(json.loads(json.loads(line)[len(prefix):]))
        if not got or (r.rc != 0):
            raise MachineryError("generator %s: rc %s, %d behaviours\n%s" % (module, r.rc, len(got), filt(r.out)[-2500:]))
        if not simulate:
            self.states += r.distinct
            self.transitions += r.generated
        self.extra.setdefault("generated_behaviours", {})[module] = \
            self.extra.get("generated_behaviours", {}).get(module, 0) + len(got)
        return got

    # ---------------------------------------------------------------- driver
    def run_driver(self, exe, script, timeout=60, args=(), env=None):
        """script: text on stdin; returns (rc, events, stderr)."""
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=0:allocator_may_return_null=1"
        e["UBSAN_OPTIONS"] = "print_stacktrace=0"
        e.update(env or {})
        try:
            r = subprocess.run([exe, *args], input=script.encode() if isinstance(script, str) else script,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e,
                               cwd=self.work)
            rc, out, err = r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as x:
            rc, out, err = "timeout", x.stdout or b"", x.stderr or b""
        ev = []
        for line in out.decode(errors="replace").splitlines():
            line = line.strip()
            if not line.startswith("{"):
                continue
            try:
                ev.append(json.loads(line))
            except ValueError:
                if rc == 0:
                    raise MachineryError("driver printed a bad line: %r" % line[:300])
        return rc, ev, err.decode(errors="replace")

    def run_all(self, exe, scenarios, timeout=60, args=(), env=None, per_batch=None):
        """scenarios: list of script texts, each an independent run.  Batches are
        run in parallel; a scenario's events start with its "Begin" event (or
        whatever its driver prints), and the driver prints {"e":"Done"} after it.
        Returns list of (index, events, failure or None)."""
        n = per_batch or max(1, (len(scenarios) + NPROC * 2 - 1) // (NPROC * 2))
        batches = [list(range(i, min(i + n, len(scenarios)))) for i in range(0, len(scenarios), n)]

        def one(idx):
            res, todo = [], list(idx)
            while todo:
                rc, ev, err = self.run_driver(exe, "".join(scenarios[i] for i in todo), timeout, args, env)
                groups, cur = [], []
                for x in ev:
                    if x.get("e") == "Done":
                        groups.append(cur)
                        cur = []
                    else:
                        cur.append(x)
                for i, g in zip(todo, groups):
                    res.append((i, g, None))
                k = len(groups)
                if k >= len(todo):
                    break
                # the run ended inside scenario todo[k]
                why = "timeout" if rc == "timeout" else "exit %s" % rc
                res.append((todo[k], cur, "%s: %s" % (why, summarize(err))))
                todo = todo[k + 1:]
            return res
        with ThreadPoolExecutor(NPROC) as ex:
            out = [x for b in ex.map(one, batches) for x in b]
        out.sort(key=lambda x: x[0])
        return out

    # ------------------------------------------------------------ validation
    def validate(self, module, groups, cfg=None, cfg_text=None, timeout=600, parts=NPROC, env=None, xmx="3g"):
        """groups: list of (label, events, replayable).  Every group must be a
        behaviour of the trace specification.  Returns list of rejected
        (group index, event index, explanation)."""
        c = self.cfg(cfg_text) if cfg_text else os.path.join(SPEC, cfg or module + ".cfg")
        idx = list(range(len(groups)))
        parts = max(1, min(parts, len(idx)))
        # balance by size
        sz = [sum(len(json.dumps(e)) for e in g[1]) for g in groups]
        parts = max(parts, min(len(idx), sum(sz) // 2500000))
        bins = [[0, []] for _ in range(parts)]
        for i in sorted(idx, key=lambda i: -sz[i]):
            b = min(bins, key=lambda b: b[0])
            b[0] += sz[i] + 200
            b[1].append(i)
        bins = [sorted(b[1]) for b in bins if b[1]]
        self._vt = getattr(self, "_vt", 0)

        skipped = []
        def one(ids):
            rejected, todo, rounds = [], list(ids), 0
            if time.time() - self.t0 > 720:     # out of time: say so rather than give no answer
                skipped.extend(ids)
                return rejected
            while todo and rounds < 6:
                rounds += 1
                ok, pos, why, owner = self._validate_once(module, c, groups, todo, timeout, env, xmx)
                if ok:
                    break
                gi, ei = owner
                rejected.append((gi, ei, why))
                todo = todo[todo.index(gi) + 1:]
            return rejected
        with ThreadPoolExecutor(NPROC) as ex:
            rej = [x for b in ex.map(one, bins) for x in b]
        self.traces += len(groups) - len(rej) - len(skipped)
        nev = sum(len(g[1]) for i, g in enumerate(groups) if i not in set(skipped))
        if skipped:
            self.extra["traces_not_reached_in_time"] = self.extra.get("traces_not_reached_in_time", 0) + len(skipped)
        d = self.extra.setdefault("trace_specs", {}).setdefault(module, {"traces": 0, "events": 0})
        d["traces"] += len(groups)
        d["events"] += nev
        self.log("validated", len(groups), "traces,", nev, "events against", module, "- rejected", len(rej))
        return rej

    def _validate_once(self, module, cfgp, groups, ids, timeout, env, xmx):
        fd, p = tempfile.mkstemp(suffix=".ndjson", dir=self.work)
        where = []
        with os.fdopen(fd, "w") as f:
            for gi in ids:
                for ei, ev in enumerate(groups[gi][1]):
                    f.write(json.dumps(ev) + "\n")
                    where.append((gi, ei))
        e = {"TRACE": p}
        e.update(env or {})
        r = self.java(module, cfgp, env=e, workers=1, timeout=timeout, xmx=xmx)
        if not os.environ.get("VF_KEEP"):
            os.unlink(p)
        self.known_seen.update(re.findall(r'<<"KNOWN", "([^"]+)">>', r.out))
        if "No error has been found" in r.out and r.rc == 0:
            if r.generated:
                self.transitions += r.generated
                self.states += r.distinct
            return True, None, None, None
        m = re.search(r'"REJECTED_AT"\s*,\s*(\d+)', r.out)
        if not m:
            raise MachineryError("trace spec %s broke (rc %s):\n%s" % (module, r.rc, filt(r.out)[-3500:]))
        pos = int(m.group(1))           # 1-based index of the first event not explained
        k = min(pos - 1, len(where) - 1)
        why = " ".join(re.findall(r'<<\s*"MISMATCH[^"]*".*?>>\s*$', r.out, re.M | re.S)[-1:])[-1500:]
        return False, pos, why, where[k]

    # ------------------------------------------------------------- reporting
    def save_replay(self, name, obj):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.json" % (self.pid, name))
        with open(p, "w") as f:
            json.dump(obj, f, indent=1)
        return p

    def violation(self, msg, replay):
        self.violations.append((msg, replay))

    def conform(self, exe, scenarios, module, cfg=None, cfg_text=None, timeout=60, vtimeout=600, args=(),
                env=None, labels=None, allow_fail=None, prep=None, parts=NPROC):
        """The whole conformance step: run scenarios in the real code, validate the
        recorded traces, confirm anything suspicious by a second run."""
        runs = self.run_all(exe, scenarios, timeout, args, env)
        groups = []
        for i, ev, fail in runs:
            if fail is None:
                groups.append((i, prep(i, ev) if prep else ev, None))
        bad = [(i, "the program did not survive: " + fail, ev) for i, ev, fail in runs if fail]
        rej = self.validate(module, groups, cfg, cfg_text, vtimeout, parts) if groups else []
        for gi, ei, why in rej:
            bad.append((groups[gi][0], "event %d is not allowed by %s: %s %s" %
                        (ei, module, json.dumps(groups[gi][1][ei])[:400], why), groups[gi][1]))
        confirmed = []
        for i, why, ev in bad[:12]:
            (_, ev2, fail2), = self.run_all(exe, [scenarios[i]], timeout, args, env)[:1]
            if fail2 is None:
                if prep:
                    ev2 = prep(i, ev2)
                r2 = self.validate(module, [(i, ev2, None)], cfg, cfg_text, vtimeout, 1)
                if not r2:
                    self.log("not repeated:", i, why[:300])
                    continue
                self.traces -= 0
            label = labels[i] if labels else str(i)
            p = self.save_replay("%s-%d" % (module, i), {
                "property": self.pid, "scenario": label, "why": why, "script": scenarios[i],
                "driver_args": list(args), "trace": ev2[:4000]})
            self.violation("%s: %s" % (label, why), p)
            confirmed.append(i)
        if bad and not confirmed:
            raise MachineryError("a rejection was not repeated: %s" % bad[0][1][:500])
        return groups

    def self_test(self, module, group, mutate, cfg=None, cfg_text=None):
        """Show that the trace specification binds: a corrupted trace is rejected."""
        ev = mutate(json.loads(json.dumps(group)))
        c = self.cfg(cfg_text) if cfg_text else os.path.join(SPEC, cfg or module + ".cfg")
        ok, *_ = self._validate_once(module, c, [(0, ev, None)], [0], 300, None, "2g")
        if ok:
            raise MachineryError("trace specification %s accepted a corrupted trace" % module)
        self.extra["corrupted_traces_rejected"] = self.extra.get("corrupted_traces_rejected", 0) + 1

    def check_known(self):
        """A deviation the specification names must be listed as a known finding."""
        listed = {}
        for line in open(VERIF + "/known_findings.txt"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == self.pid:
                listed[m.group(2)] = m.group(3)
        for k in sorted(self.known_seen):
            if k in listed:
                self.known.append("[%s] %s" % (k, listed[k]))
            else:
                self.violation("deviation %s" % k, self.save_replay("known-" + k, {"property": self.pid, "key": k}))

    def finish(self):
        self.check_known()
        wall = round(time.time() - self.t0, 1)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples[:4] or ["(no sample)"]}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": wall,
              "violations": len(self.violations)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (VERIF, self.pid), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        for msg, p in self.violations:
            print("  " + msg[:1200])
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, self.violations[0][1]))
        else:
            print("%s held: %d states, %d transitions, %d traces validated, %.1f s" % (
                self.pid, self.states, self.transitions, self.traces, wall))
        return 1 if self.violations else 0

    def cleanup(self):
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)


def filt(out):
    return "\n".join(l for l in out.splitlines()
                     if not l.startswith(("Parsing file", "Semantic proc", "Linting", "CostModel lookup")))


def summarize(err):
    m = re.search(r"(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error:[^\n]*|[^\n]*Assertion[^\n]*|[^\n]*terminate called[^\n]*)", err)
    fr = re.findall(r"#\d+ \S+ in (\S+) (\S+)", err)[:5]
    return ((m.group(1) if m else err.strip()[-300:]) + " " + " < ".join(f[0] for f in fr))[:700]


def hexs(b):
    return bytes(b).hex() or "-"


def main(run):
    pass
