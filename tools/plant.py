#!/usr/bin/env python3
"""Plant a bug: plant.py SPEC.py   (SPEC.py sets id, prop, edits=[(file, old, new)], files={name: text},
needs, breaks, and optionally shim=True).  Applies it to /repo, builds, runs the stable tests, the demo and the
property's check, undoes it, runs the demo again and keeps it under seeded/<id>/."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def main():
    s = {}
    exec(open(sys.argv[1]).read(), s)
    only = sys.argv[2:] == ["--check"]
    d = "%s/seeded/%s" % (V, s["id"])
    assert not sh("git -C %s status --short" % R).stdout.strip(), "repo not clean"
    for f, old, new in s["edits"]:
        p = R + "/" + f; t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    try:
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
        for n, t in s["files"].items(): open(d + "/" + n, "w").write(t)
        os.chmod(d + "/demo.sh", 0o755)
        if s.get("shim"): sh("tar -C %s/shim -czf %s/shim.tgz include src" % (V, d))
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        b = sh("bash /opt/vp/build.sh"); print("build", b.returncode)
        t = sh("bash /opt/vp/test.sh /tmp/plant.json"); print("tests", open("/tmp/plant.json").read()[:200])
        m = sh("bash %s/demo.sh" % d, cwd=R, timeout=300); print("demo with bug:", m.returncode, m.stdout[-300:])
        for p in s.get("checks", [s["prop"]]):
            c = sh("%s/bin/check %s" % (V, p), cwd=V)
            print("check", p, c.returncode, "CAUGHT" if c.returncode == 1 and "VIOLATION property=" + p in c.stdout else "MISSED")
            print("\n".join(x[:160] for x in c.stdout.splitlines() if "not allowed" in x or "VIOLATION" in x)[:500])
            if c.returncode not in (0, 1): print(c.stdout[-600:])
    finally:
        sh("git -C %s checkout -- ." % R)
    sh("bash /opt/vp/build.sh")
    m = sh("bash %s/demo.sh" % d, cwd=R, timeout=300); print("demo without:", m.returncode, m.stdout[-300:])
main()
