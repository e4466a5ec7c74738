#!/usr/bin/env python3
"""Runs a program of /repo/rust in a directory of its own, one scenario (JSON) per line."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(sys.argv[0]))
def show(e): print(json.dumps(e))
for line in sys.stdin:
    if line.startswith("."): show({"e": "Done"}); continue
    s = json.loads(line)
    d = tempfile.mkdtemp(prefix="prog."); log = tempfile.mktemp(prefix="proglog.")
    try:
        for n, b in s["files"]: open(d + "/" + n, "wb").write(bytes(b))
        os.mkdir(d + "/folder")
        show({"e": "Start", "prog": s["prog"], "words": s["opts"] + s["pos"], "pos": s["pos"], "files": s["files"], "stdin": s["stdin"]})
        p = subprocess.Popen([HERE + "/" + s["prog"]] + s["opts"] + s["pos"], cwd=d, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=dict(os.environ, PROG_PLAN=s["plan"], PROG_LOG=log))
        try: out, err = p.communicate(bytes(s["stdin"]), timeout=20)
        except subprocess.TimeoutExpired: p.kill(); out, err = p.communicate()
        if os.path.exists(log): sys.stdout.write(open(log).read())
        show({"e": "Exit", "rc": p.returncode, "out": list(out),
              "files": [[n, list(open(d + "/" + n, "rb").read())] for n in sorted(os.listdir(d)) if n != "folder"]})
    finally:
        shutil.rmtree(d, ignore_errors=True)
        if os.path.exists(log): os.unlink(log)
    sys.stdout.flush()
