"""C24: the mount and unmount scripts."""
import os
import random
import re
import shutil
import signal
import subprocess
import time

from vlib import build, fuse
from vlib.session import Violation
from .c15 import processes
from .common import ASSUME_LOCAL

LEVEL = "exploration"
RULE = ("one case is one call of mount-lazyfs.sh or umount-lazyfs.sh, as an unprivileged user, with options in any order and spelling and absolute or "
        "relative names full of blanks, wildcards, quotes, commas and other characters, next to folders with similar names; or with something "
        "missing, unknown or not there. build/lazyfs and fusermount3 are stand-ins that record how they were called; then the real lazyfs is "
        "started with the recorded arguments (only the mount point replaced by the connection) and must create a file in the chosen root folder; "
        "distinct by the arguments")
ASSUMPTIONS = [ASSUME_LOCAL, "names have no line breaks and do not begin with a hyphen", "the scripts run with bash in lazyfs's folder, which has build/lazyfs"]
WORDS = ["m", "a b", "x*", "[ab]", "q?", "it's", 'd"q', "$HOME", "`id`", "a;b", "c&d", "p|q", "ü€", "%s\\n", "\\t", "a,b", "x\\,y", "b\\", "#1", "~", "(z)", "{a,b}",
         "t\tt", " lead", "trail ", "!", "a=b", "<x>", "x", "y.toml", "ab", "xy"]
STUB = """#!/bin/bash
{ printf '%s\\0' "$PWD" "$@"; printf '\\n'; } >> "$STUB_DIR/calls.tmp"
mv "$STUB_DIR/calls.tmp" "$STUB_DIR/calls.$(date +%s%N).$$"
sleep 0.05
touch "$STUB_DIR/ended"
exit 7
"""


def cases(tier, seed):
    out = []
    for i in range(600 if tier == "quick" else 8000):
        out.append({"seed": f"C24-{seed}-{i}", "kind": ("mount", "mount", "mount", "refuse", "umount", "help")[i % 6]})
    return out


def place(r, work, used):
    """(the name as given, where that is): relative to the folder the script runs in, or absolute."""
    while True:
        rel = "/".join(r.choice(WORDS) for _ in range(r.choice((1, 1, 2))))
        if rel.split("/")[0] in used or rel in ("build", "scripts"):
            continue
        used.add(rel.split("/")[0])
        how = r.randrange(4)
        if how == 0:
            return rel, work + "/cwd/" + rel
        if how == 1:
            return "./" + rel, work + "/cwd/" + rel
        if how == 2:
            return "../" + rel, work + "/" + rel
        return work + "/abs/" + rel, work + "/abs/" + rel


def tree(top):
    out = set()
    for d, ds, fs in os.walk(top):
        out.update(os.path.join(d, x) for x in ds + fs)
    return out


class Runner:
    def __init__(self, fs, r):
        self.fs, self.r = fs, r
        self.cwd, self.stub = fs.work + "/cwd", fs.work + "/stub"
        src = os.path.join(build.REPO, "lazyfs/scripts")
        for d in (self.cwd, self.cwd + "/build", self.cwd + "/scripts", self.stub, self.stub + "/bin", fs.work + "/abs"):
            os.mkdir(d)
            fuse.own(d)
        for n in ("mount-lazyfs.sh", "umount-lazyfs.sh"):
            shutil.copy(os.path.join(src, n), self.cwd + "/scripts/" + n)
            os.chmod(self.cwd + "/scripts/" + n, 0o755)
        # whatever could reach the system is a stand-in
        for p in [self.cwd + "/build/lazyfs"] + [self.stub + "/bin/" + n for n in ("fusermount3", "fusermount", "umount", "mount", "sudo")]:
            with open(p, "w") as f:
                f.write(STUB.replace("$STUB_DIR", self.stub))
            os.chmod(p, 0o755)

    def call(self, script, args):
        cmd = [self.cwd + "/scripts/" + script] if self.r.random() < 0.5 else ["./scripts/" + script]
        env = {"PATH": self.stub + "/bin:/usr/bin:/bin", "HOME": self.fs.work, "LANG": "C.UTF-8"}
        p = subprocess.Popen(cmd + args, cwd=self.cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             preexec_fn=fuse.be_unprivileged, env=env, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=30)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            raise fuse.Hang(f"{script} {args} does not end")
        return p.returncode, out.decode(errors="replace")

    def calls(self):
        got = []
        for n in sorted(os.listdir(self.stub)):
            if n.startswith("calls.") and not n.endswith(".tmp"):
                with open(self.stub + "/" + n, errors="surrogateescape") as f:
                    got.append(f.read()[:-1].split("\0")[:-1])
        return got

    def wait_calls(self):
        end = time.monotonic() + 10
        while not os.path.exists(self.stub + "/ended") and time.monotonic() < end:
            time.sleep(0.01)
        return self.calls()


def options(r, mount=None, root=None, config=None, fg=False):
    g = []
    if mount is not None:
        g.append([r.choice(("-m", "--mount.dir")), mount])
    if root is not None:
        g.append([r.choice(("-r", "--root.dir")), root])
    if config is not None:
        g.append([r.choice(("-c", "--config-path")), config])
    if fg:
        g.append([r.choice(("-f", "--foreground"))])
    r.shuffle(g)
    return sum(g, [])


def run_case(case, ctx):
    r = random.Random(case["seed"])
    fs = fuse.LazyFS(ctx["bin"]["plain"], base=ctx["base"], completed=False, timeout=20.0)
    out = {"tags": [], "stats": {case["kind"]: 1}, "compared": 0}
    try:
        x = Runner(fs, r)
        sig = globals()["do_" + case["kind"]](x, fs, r, out)
        out["sig"] = case["kind"] + repr(sig).replace(fs.work, "")
    except Violation as v:
        out["violation"] = {"kind": v.kind, "detail": v.detail}
    except fuse.Hang as e:
        out["violation"] = {"kind": "hang", "detail": str(e)}
    except fuse.Dead as e:
        out["violation"] = {"kind": "dead", "detail": f"{e} {fs.log()[-600:] if os.path.exists(fs.log_path) else ''}"}
    finally:
        out["requests"] = fs.requests
        for pid in processes(fs.root):
            os.kill(pid, signal.SIGKILL)
        fs.close()
    return out


def setting(x, fs, r):
    """Two folders, a configuration file, and others with similar names."""
    used = set()
    m, r0, c = place(r, fs.work, used), place(r, fs.work, used), place(r, fs.work, used)
    for _, p in (m, r0):
        os.makedirs(p)
    os.makedirs(os.path.dirname(c[1]), exist_ok=True)
    with open(c[1], "w") as f:
        f.write(fs.config_text({"manual": (512, 512, 9)}))
    for w in r.sample(WORDS, 4) + ["a", "b"]:
        for base in (x.cwd, fs.work, fs.work + "/abs"):
            if w not in used and not os.path.exists(base + "/" + w) and r.random() < 0.5:
                os.mkdir(base + "/" + w)
    for d, ds, fl in os.walk(fs.work):
        for n in ds + fl:
            if "/stub" not in d:
                fuse.own(os.path.join(d, n))
    return m, r0, c


def do_mount(x, fs, r, out):
    m, root, c = setting(x, fs, r)
    fg = r.random() < 0.5
    if r.random() < 0.3:
        m = (m[0] + "/", m[1])
    if r.random() < 0.3:
        root = (root[0] + "/", root[1])
    args = options(r, m[0], root[0], c[0], fg)
    before = tree(fs.work)
    rc, text = x.call("mount-lazyfs.sh", args)
    ended = os.path.exists(x.stub + "/ended")
    got = x.wait_calls()
    what = f"mount-lazyfs.sh {args}: "
    if len(got) != 1:
        raise Violation("run", what + f"lazyfs was started {len(got)} times; {text[-400:]}")
    if fg and (rc != 7 or not ended):
        raise Violation("foreground", what + f"ended with {rc} while lazyfs {'ended with 7' if ended else 'was running'}")
    if not fg and rc != 0:
        raise Violation("background", what + f"ended with {rc}; {text[-300:]}")
    new = [p for p in tree(fs.work) - before if not p.startswith(x.stub)]
    if new:
        raise Violation("litter", what + f"made {new}")
    out["compared"] += 3
    cwd, a = got[0][0], got[0][1:]
    where = [i for i, w in enumerate(a) if os.path.realpath(os.path.join(cwd, w)) == os.path.realpath(m[1]) and a[i - 1:i] != ["-o"]]
    if len(where) != 1:
        raise Violation("mount", what + f"the mount folder is not what lazyfs was given: {a}")
    if "--config-path" not in a or os.path.realpath(os.path.join(cwd, (a + [""])[a.index("--config-path") + 1])) != os.path.realpath(c[1]):
        raise Violation("config", what + f"the configuration is not what lazyfs was given: {a}")
    a[where[0]] = "@MNT@"
    if "allow_other" not in ",".join(a[i + 1] for i, w in enumerate(a[:-1]) if w == "-o").split(","):
        raise Violation("options", what + f"other users are not let in: {a}")
    # with these arguments, what clients do is done in the root folder
    with open(c[1]) as f:
        cfg = f.read()
    fs_root, fs.root = fs.root, fs.root
    try:
        ok = fs.start(text=cfg, args=a, cname=os.path.relpath(c[1], fs.work))
    except FileNotFoundError as e:
        raise Violation("start", what + f"lazyfs {a} did not make its pipe: {e}")
    if not ok:
        raise Violation("start", what + f"lazyfs {a} did not start: {fs.log()[-500:]}")
    if fs.background == fg:
        raise Violation("foreground", what + f"lazyfs was started with {a}")
    name = f"/probe {r.randrange(1000)}"
    try:
        h = fs.create(name)
        fs.write(h, 0, b"probe")
        fs.fsync(h, False)
        fs.close_handle(h)
    except fuse.FuseError as e:
        raise Violation("root", what + f"lazyfs {a}: no file can be made: {e}")
    out["compared"] += 4
    if os.listdir(root[1]) != [name[1:]]:
        raise Violation("root", what + f"a new file is not in the root folder {root[1]} but {[p for p in tree(fs.work) if p.endswith(name)]}")
    fs.stop()
    if not fg:
        for pid in processes(fs.fifo) + processes(c[1]):
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
    out["tags"] = [f"mount/{k}/{'rel' if p[0][0] != '/' else 'abs'}/{w}" for k, p in (("m", m), ("r", root), ("c", c)) for w in set(re.findall(r"[^a-z0-9/_.]", p[0][-12:]))]
    return args


def do_refuse(x, fs, r, out):
    m, root, c = setting(x, fs, r)
    g = {"mount": m[0], "root": root[0], "config": c[0]}
    k = r.choice(sorted(g))
    how = r.choice(("absent", "not given", "kind", "unknown", "unknown"))
    if how == "not given":
        g[k] = None
    elif how == "absent":
        g[k] = g[k] + r.choice(("x", "/x", " "))
    elif how == "kind":
        g[k] = m[0] if k == "config" else c[0]
    args = options(r, fg=r.random() < 0.5, **g)
    if how == "unknown":
        i = r.choice([i for i in range(len(args) + 1) if args[i - 1:i] == [] or args[i - 1][:1] != "-" or args[i - 1] in ("-f", "--foreground")])
        args.insert(i, r.choice(("-x", "--mount", "-", "--", "stray", "--config", "-mr", "a b", "*")))
    before = tree(fs.work)
    rc, text = x.call("mount-lazyfs.sh", args)
    time.sleep(0.05)
    if x.calls():
        raise Violation("run", f"mount-lazyfs.sh {args} ({how}) started lazyfs: {x.calls()}")
    new = [p for p in tree(fs.work) - before]
    if new:
        raise Violation("litter", f"mount-lazyfs.sh {args} ({how}) made {new}")
    if rc == 0 or not text.strip():
        raise Violation("refuse", f"mount-lazyfs.sh {args} ({how}) ended with {rc}: {text}")
    out["compared"] += 3
    out["tags"] = [f"refuse/{how}/{k}"]
    return args


def do_umount(x, fs, r, out):
    m, _, _ = setting(x, fs, r)
    bad = r.random() < 0.3
    args = options(r, m[0])
    if bad:
        args.insert(r.choice((0, 2)), r.choice(("-x", "--mount", "stray", "a b", "-r", "--", "-")))
    rc, text = x.call("umount-lazyfs.sh", args)
    got = x.calls()
    if bad:
        if got or rc == 0:
            raise Violation("refuse", f"umount-lazyfs.sh {args} ended with {rc} and called {got}")
    else:
        if len(got) != 1 or rc != 7:
            raise Violation("umount", f"umount-lazyfs.sh {args} ended with {rc} (fusermount3 with 7) and called {got}")
        rest = [w for w in got[0][1:] if not w.startswith("-")]
        if "-u" not in got[0] or [os.path.realpath(os.path.join(got[0][0], w)) for w in rest] != [os.path.realpath(m[1])]:
            raise Violation("umount", f"umount-lazyfs.sh {args} called fusermount3 with {got[0][1:]}")
    out["compared"] += 2
    out["tags"] = [f"umount/{bad}/{'rel' if m[0][0] != '/' else 'abs'}"] + [f"umount/{w}" for w in set(re.findall(r"[^a-z0-9/_.]", m[0][-12:]))]
    return args


def do_help(x, fs, r, out):
    m, root, c = setting(x, fs, r)
    script = r.choice(("mount-lazyfs.sh", "umount-lazyfs.sh"))
    args = []
    if r.random() < 0.7:
        args = options(r, m[0]) if script[0] == "u" else options(r, m[0], root[0], c[0], True)
        args = r.choice(([], args)) + [r.choice(("-h", "--help"))]
    rc, text = x.call(script, args)
    time.sleep(0.05)
    if x.calls() or "--mount.dir" not in text or (args and rc):
        raise Violation("help", f"{script} {args} ended with {rc}, called {x.calls()} and said {text}")
    out["compared"] += 2
    out["tags"] = [f"help/{script}/{len(args)}"]
    return [script] + args
