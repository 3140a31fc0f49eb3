#!/usr/bin/env python3
"""Writes and confirms a planted bug: python3 tools/seed.py SPEC.py [--no-tests]

SPEC.py defines ID, PROPERTY, EDITS [(file, old, new)], DEMO (python text), NEEDS, BREAKS.  The change is made in the scratch copy
/tmp/wt (see WT below), never in /repo.  Demonstrations drive the program through a copy of vlib/fuse.py that lies beside them.
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"
PRE = '''"""Demonstration: exits 0 when the behaviour is right, 1 when it is not."""
import os, shutil, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from fuse import *

BASE = tempfile.mkdtemp(prefix="demo_")
os.chmod(BASE, 0o711)
BIN = BASE + "/lazyfs"
shutil.copy2("lazyfs/build/lazyfs", BIN)
os.chmod(BIN, 0o755)


def new(**cfg):
    fs = LazyFS(BIN, base=BASE, timeout=30.0)
    if "pre" in cfg:
        for name, data in cfg.pop("pre").items():
            with open(fs.root + name, "wb") as f:
                f.write(data)
            own(fs.root + name)
    cfg.setdefault("manual", (4096, 4096, 256))
    assert fs.start(cfg), fs.log()
    return fs


def disk(fs, p):
    with open(fs.root + p, "rb") as f:
        return f.read()


def content(fs, p):
    h = fs.open(p, os.O_RDONLY)
    d = fs.read_all(h, fs.stat(p).size)
    fs.close_handle(h)
    return d


def check(ok, what):
    if not ok:
        print("WRONG:", what)
        raise SystemExit(1)


def main():
'''
POST = '''

try:
    main()
    print("right")
finally:
    shutil.rmtree(BASE, ignore_errors=True)
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def reset():
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh(f"git -C {WT} checkout -q -- . ; git -C {WT} fetch -q /repo HEAD && git -C {WT} checkout -q {head}")


def demo(d):
    r = sh(["bash", d + "/demo.sh"], cwd=WT, timeout=300)
    return r.returncode, r.stdout[-600:]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    d = f"{V}/seeded/{ns['ID']}"
    os.makedirs(d, exist_ok=True)
    reset()
    for f, old, new in ns["EDITS"]:
        t = open(f"{WT}/{f}").read()
        assert t.count(old) == 1, (f, old, t.count(old))
        open(f"{WT}/{f}", "w").write(t.replace(old, new))
    with open(d + "/patch.diff", "w") as f:
        f.write(sh(f"git -C {WT} diff").stdout)
    if ns.get("DEMO"):
        body = "\n".join("    " + l if l.strip() else "" for l in ns["DEMO"].strip("\n").split("\n"))
        open(d + "/demo.py", "w").write(PRE + body + "\n" + POST)
    for name, text in ns.get("FILES", {}).items():
        open(f"{d}/{name}", "w").write(text)
    shutil.copy2(V + "/vlib/fuse.py", d + "/fuse.py")
    open(d + "/demo.sh", "w").write(ns.get("SH", '#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n'))
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    r = sh("bash /tmp/wtools/build.sh")
    if r.returncode:
        print("BUILD FAILED", r.stdout[-2000:])
        return 1
    with_bug = demo(d)
    tests = None
    if "--no-tests" not in sys.argv:
        sh("bash /tmp/wtools/test.sh /tmp/t.json")
        tests = json.load(open("/tmp/t.json"))
        tests = (len(tests["passed"]), tests["failed"])
    # the unchanged program
    sh(f"git -C {WT} stash -q")
    sh("bash /tmp/wtools/build.sh")
    without = demo(d)
    sh(f"git -C {WT} stash pop -q")
    print(ns["ID"], "with:", with_bug, "without:", without, "tests:", tests)
    ok = with_bug[0] != 0 and without[0] == 0 and (tests is None or not tests[1])
    print("CONFIRMED" if ok else "NOT CONFIRMED")
    for p in ([ns["PROPERTY"]] + ns.get("ALSO", [])) if "--check" in sys.argv else []:
        r = sh(["python3", "check.py", p], cwd=V, env=dict(os.environ, VERIF_REPO=WT, VERIF_SEED="1"))
        print(p, "exit", r.returncode, r.stdout[-500:])
    return 0 if ok else 1


if __name__ == "__main__":
    sys.exit(main())
