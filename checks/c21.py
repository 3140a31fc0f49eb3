"""C21: the operation log and its parser are faithful."""
import ast
import contextlib
import errno
import io
import json
import os
import random
import re
import runpy
import sys
import tempfile
import types

from vlib import build, fuse
from vlib.session import Violation
from .common import ASSUME_CLIENT, ASSUME_LOCAL

LEVEL = "exploration"
RULE = ("two kinds of cases: a random history on a program with log_all_operations, whose log file is compared line by line with what the client "
        "did (also after kills, restarts, fired faults, failing operations and several requests at once) and then parsed; or a log written by "
        "the check itself, with repeated, broken and nested patterns of operations; the parser's filtered list, text, graph and big-write "
        "outputs are read back and compared with the operations in the log, for random filters, group limits and page sizes; distinct by seed")
ASSUMPTIONS = [ASSUME_CLIENT, ASSUME_LOCAL,
               "an operation that fails may be left out of the log; the truncate that is part of an open may be logged",
               "file names have no line breaks and nothing that looks like another field; --files is read as regular expressions, names with "
               "special characters are not asked for; a rename with one chosen name may be listed or not",
               "pydot is not installed here: a stand-in records the nodes and edges of the graph"]
COVERED = ("write", "rename", "fsync", "create", "open", "release", "read", "truncate")
NAMES = ["a", "b", "c", "d e", "log", "a,b", "x=1", "f(1)", "ü", "{}", "%s", "it's", "[z]", "-n", "a:b", "WAL", "t)", "1.0", "size=1", "path=q"]
DIRS = ["", "/db", "/db/s,t", "/k k"]
SPECIAL = set(".^$*+?{}[]\\|()")
MODES = {os.O_RDONLY: "O_RDONLY", os.O_WRONLY: "O_WRONLY", os.O_RDWR: "O_RDWR"}


class Name:
    def __init__(self, path):
        self.path, self.handles = path, []
        self.hidden = False


# ---- the log ----

class Driver:
    """Does operations and writes down which lines they must leave."""

    def __init__(self, fs, r, case):
        self.fs, self.r, self.case, self.R = fs, r, case, fs.root
        self.before = ""
        self.names, self.dirs = [], [""]
        self.want = []                # [(window)]: each is a list of (text or regex, must) that may come in any order
        self.stats, self.tags = {}, set()
        self.inj = case.get("inj")
        self.count = 0
        self.fired = False

    def expect(self, name, args, must=True):
        self.want.append([("line", name, args, must)])

    def fault(self):
        self.want.append([("fault", None, None, True)])

    def hit(self, op, path, timing):
        """Whether the configured fault acts now."""
        i = self.inj
        if not i or i["op"] != op or i["_path"] != path:
            return
        if timing == "before":
            self.count += 1
        if timing == i["timing"] and self.count == i["occurrence"] and not self.fired:
            self.fired = True
            self.fault()
            self.tags.add(f"fault/{op}/{timing}")

    def fresh(self):
        if self.inj and self.r.random() < 0.3 and all(n.path != self.inj["_path"] for n in self.names):
            return self.inj["_path"]
        for _ in range(50):
            p = self.r.choice(self.dirs) + "/" + self.r.choice(NAMES)
            if p not in self.dirs and all(n.path != p for n in self.names):
                return p

    def name(self, opened=False, hidden=True):
        c = [n for n in self.names if (n.handles or not opened) and (hidden or not n.hidden)]
        if self.inj and not self.fired and self.r.random() < 0.5:
            c = [n for n in c if n.path == self.inj["_path"]] or c
        return self.r.choice(c) if c else None

    def do(self, name, args, call, may_fail=False):
        """One operation and its line."""
        k = len(self.want)
        self.expect(name, args)
        try:
            res = call()
        except fuse.FuseError as e:
            if not may_fail:
                raise Violation("error", f"{name}({args}) failed: {e}")
            self.want[k:] = [[("line", name, args, False)]]
            self.tags.add(f"{name}/failed")
            return None
        return True if res is None else res

    def at(self, n, rest=""):
        """The name of an unlinked file is only known from the log."""
        return (n, rest) if n.hidden else f"path={self.R}{n.path}{rest}"

    def io(self, n):
        return self.r.choice(((n, 0), (n, self.r.randrange(9000)), (1, 4096), (4097, self.r.randrange(3)), (4096, 8192)))

    def step(self):
        r, fs = self.r, self.fs
        op = r.choices(("create", "open", "write", "read", "fsync", "truncate", "ftruncate", "rename", "renamedir", "release", "unlink", "mkdir",
                        "rmdir", "repeat", "burst", "restart", "other", "fail", "far"),
                       (9, 8, 22, 12, 8, 4, 3, 6, 1.2, 9, 3, 1.5, 0.7, 9, 5, 0.7, 4, 5, 0.8))[0]
        self.stats[op] = self.stats.get(op, 0) + 1
        getattr(self, "s_" + op)()

    def s_create(self):
        p = self.fresh()
        if not p or len(self.names) > 8:
            return
        acc = self.r.choice((os.O_RDWR, os.O_WRONLY, os.O_RDONLY))
        trunc = os.O_TRUNC if self.r.random() < 0.15 else 0
        self.hit("create", p, "before")
        h = self.do("create", f"path={self.R}{p},mode={'O_TRUNC' if trunc else MODES[acc]}", lambda: self.fs.create(p, acc | trunc))
        self.hit("create", p, "after")
        n = Name(p)
        n.handles.append(h)
        self.names.append(n)

    def s_open(self):
        n = self.name(hidden=False)
        if not n or sum(len(x.handles) for x in self.names) > 12:
            return
        acc = self.r.choice((os.O_RDWR, os.O_WRONLY, os.O_RDONLY))
        trunc = self.r.random() < 0.15 and not (self.inj and self.inj["op"] in ("open", "truncate")) and acc != os.O_RDONLY
        self.hit("open", n.path, "before")
        n.handles.append(self.do("open", f"path={self.R}{n.path},mode={'O_TRUNC' if trunc else MODES[acc]}",
                                 lambda: self.fs.open(n.path, acc | (os.O_TRUNC if trunc else 0))))
        if trunc:
            self.expect("truncate", f"path={self.R}{n.path},size=0", must=False)
        self.hit("open", n.path, "after")

    def handle(self, avoid):
        c = [(n, h) for n in self.names for h in n.handles if h.flags & 3 != avoid]
        if self.inj and not self.fired and self.r.random() < 0.5:
            c = [x for x in c if x[0].path == self.inj["_path"]] or c
        return self.r.choice(c) if c else (None, None)

    def one_io(self, op, n, h, size, off):
        self.hit(op, n.path, "before")
        if op == "write":
            self.do("write", self.at(n, f",size={size},off={off}"), lambda: self.fs.write(h, off, b"w" * size))
        else:
            self.do("read", self.at(n, f",size={size},off={off}"), lambda: self.fs.read(h, off, size))
        self.hit(op, n.path, "after")

    def s_write(self):
        n, h = self.handle(os.O_RDONLY)
        if n:
            self.one_io("write", n, h, *self.io(self.r.choice((1, 100, 4096, 9000, 70000))))

    def s_read(self):
        n, h = self.handle(os.O_WRONLY)
        if n:
            self.one_io("read", n, h, *self.io(self.r.choice((1, 100, 4096, 131072))))

    def sync(self, n, h, d):
        self.hit("fsync", n.path, "before")
        self.do("fsync", self.at(n, f",isdatasync={int(d)}"), lambda: self.fs.fsync(h, d))
        self.hit("fsync", n.path, "after")

    def s_fsync(self):
        n, h = self.handle(9)
        if n:
            self.sync(n, h, self.r.random() < 0.5)

    def s_far(self):
        """Sizes and offsets around the limits of 32-bit numbers: in a long file with holes, which was there before lazyfs."""
        r, fs, p = self.r, self.fs, "/far file"
        b = self.far
        k = b + r.randrange(-5000, 5000)
        self.do("truncate", f"path={self.R}{p},size={k}", lambda: fs.truncate(p, k))
        h = self.do("open", f"path={self.R}{p},mode=O_RDWR", lambda: fs.open(p, os.O_RDWR))
        o = b + r.randrange(-5000, 5000)
        self.do("write", f"path={self.R}{p},size=100,off={o}", lambda: fs.write(h, o, b"w" * 100))
        self.do("read", f"path={self.R}{p},size=200,off={o}", lambda: fs.read(h, o, 200))
        self.do("truncate", f"path={self.R}{p},size={k + 1}", lambda: fs.ftruncate(h, k + 1))
        self.do("release", f"path={self.R}{p}", lambda: fs.close_handle(h))

    def s_truncate(self):
        n = self.name(hidden=False)
        if n:
            k = self.r.choice((0, 1, 4096, self.r.randrange(20000)))
            self.hit("truncate", n.path, "before")
            self.do("truncate", f"path={self.R}{n.path},size={k}", lambda: self.fs.truncate(n.path, k))
            self.hit("truncate", n.path, "after")

    def s_ftruncate(self):
        n, h = self.handle(os.O_RDONLY)
        if n:
            k = self.r.randrange(20000)
            self.hit("truncate", n.path, "before")
            self.do("truncate", self.at(n, f",size={k}"), lambda: self.fs.ftruncate(h, k))
            self.hit("truncate", n.path, "after")

    def hide(self, n):
        """An open file that loses its name is renamed by libfuse."""
        self.want.append([("hidden", n, self.R + n.path, True)])
        n.hidden = True
        n.path = None

    def s_rename(self):
        n = self.name(hidden=False)
        m = self.name(hidden=False) if self.r.random() < 0.35 else None
        to = m.path if m and m is not n else self.fresh()
        if not n or not to:
            return
        a = n.path
        if m and m is not n:
            if m.handles:
                self.hide(m)
            else:
                self.names.remove(m)
        self.do("rename", f"from={self.R}{a},to={self.R}{to}", lambda: self.fs.rename(a, to))
        n.path = to

    def s_mkdir(self):
        d = self.r.choice([x for x in DIRS if x])
        if d in self.dirs or d.rsplit("/", 1)[0] not in self.dirs:
            return
        self.do("mkdir", f"path={self.R}{d}", lambda: self.fs.mkdir(d))
        self.dirs.append(d)

    def s_rmdir(self):
        ds = [d for d in self.dirs if d]
        if ds:
            d = self.r.choice(ds)
            if self.do("rmdir", f"path={self.R}{d}", lambda: self.fs.rmdir(d), may_fail=True):
                self.dirs.remove(d)

    def s_renamedir(self):
        ds = [d for d in self.dirs if d.count("/") == 1]
        to = "/" + self.r.choice("PQR")
        if not ds or to in self.dirs:
            return
        a = self.r.choice(ds)
        if any(n.hidden for n in self.names):
            return
        self.do("rename", f"from={self.R}{a},to={self.R}{to}", lambda: self.fs.rename(a, to))
        self.dirs = [to + d[len(a):] if d == a or d.startswith(a + "/") else d for d in self.dirs]
        for n in self.names:
            if n.path.startswith(a + "/"):
                n.path = to + n.path[len(a):]

    def s_release(self):
        n = self.name(opened=True)
        if not n:
            return
        h = n.handles.pop(self.r.randrange(len(n.handles)))
        self.do("release", self.at(n), lambda: self.fs.release(h))
        if n.hidden and not n.handles:
            self.expect("unlink", self.at(n))
            self.names.remove(n)

    def s_unlink(self):
        n = self.name(hidden=False)
        if not n or len(self.names) < 3:
            return
        p = n.path
        if n.handles:
            self.hide(n)
            self.fs.unlink(p)
        else:
            self.do("unlink", f"path={self.R}{p}", lambda: self.fs.unlink(p))
            self.names.remove(n)

    def s_repeat(self):
        """The same few operations again and again, so that the parser has something to group."""
        seq = []
        for _ in range(self.r.randrange(1, 4)):
            k = self.r.choice(("write", "read", "fsync", "open"))
            n, h = self.handle({"write": os.O_RDONLY, "read": os.O_WRONLY}.get(k, 9))
            if n and not n.hidden:
                seq.append((k, n, h))
        for i in range(self.r.randrange(1, 6)):
            for k, n, h in seq:
                if k == "fsync":
                    self.sync(n, h, i % 2 == 1)
                elif k == "open":
                    self.hit("open", n.path, "before")
                    x = self.do("open", f"path={self.R}{n.path},mode=O_RDONLY", lambda: self.fs.open(n.path, os.O_RDONLY))
                    self.hit("open", n.path, "after")
                    self.do("release", f"path={self.R}{n.path}", lambda: self.fs.release(x))
                else:
                    self.one_io(k, n, h, *self.io(self.r.choice((10, 4096))))

    def s_burst(self):
        """Several requests at once: their lines come in any order, each once."""
        if self.inj:
            return
        window, us = [], []
        for n in self.names:
            for h in n.handles:
                if n.hidden:
                    continue
                k = self.r.choice(("write", "read"))
                if h.flags & 3 == os.O_WRONLY:
                    k = "write"
                elif h.flags & 3 == os.O_RDONLY:
                    k = "read"
                if k == "write" and any(w[1] == "write" and w[2].startswith(f"path={self.R}{n.path},") for w in window):
                    k = "skip"      # writes of one file are not sent at once
                for _ in range(self.r.randrange(1, 3) if k == "read" else 1 if k == "write" else 0):
                    size, off = self.io(self.r.choice((5, 5000)))
                    window.append(("line", k, f"path={self.R}{n.path},size={size},off={off}", True))
                    us.append((k, n, h, size, off))
        us = [self.fs.send(fuse.WRITE, h.node, self.fs.write_body(h, off, b"b" * size)) if k == "write"
              else self.fs.send(fuse.READ, h.node, self.fs.read_body(h, off, size)) for k, n, h, size, off in us]
        for u in us:
            self.fs.wait(u)
        if window:
            self.want.append(window)
            self.tags.add(f"burst/{min(len(window), 8)}")

    def s_restart(self):
        """Killed and started again: the log goes on."""
        if self.inj or self.case["log"] is False or self.case["log"] == "stdout":
            return
        self.fs.kill()
        with open(self.case["cfg"]["logfile"]) as f:
            text = f.read()
        # a new log or more of the old one
        self.before = text if text.startswith(self.before) else self.before + text
        self.tags.add("restart")
        for n in self.names:
            n.handles = []
        # what libfuse had hidden stays as a file
        self.names = [n for n in self.names if not n.hidden]
        if not self.fs.start(self.case["cfg"]):
            raise Violation("dead", "lazyfs did not start again")

    def s_other(self):
        n = self.name(hidden=False)
        if not n or n.path is None:
            return
        k = self.r.randrange(5)
        if k == 0:
            self.do("chmod", f"path={self.R}{n.path}", lambda: self.fs.chmod(n.path, 0o644))
        elif k == 1:
            self.do("utimens", f"path={self.R}{n.path}", lambda: self.fs.utimens(n.path, 10**18, 10**18))
        elif k == 2:
            self.do("access", f"path={self.R}{n.path}", lambda: self.fs.access(n.path))
        elif k == 3:
            self.fs.stat(n.path)
        else:
            p = self.fresh()
            if p and len(self.names) < 9:
                self.do("link", f"from={self.R}{n.path},to={self.R}{p}", lambda: self.fs.link(n.path, p))
                self.names.append(Name(p))

    def s_fail(self):
        k = self.r.randrange(5)
        n = self.name(hidden=False)
        if k == 0 and self.dirs[1:]:
            d = self.r.choice(self.dirs[1:])
            self.do("mkdir", f"path={self.R}{d}", lambda: self.fs.mkdir(d), may_fail=True)
        elif k == 1:
            a, h = self.handle(os.O_RDWR)
            if a and h.flags & 3 == os.O_WRONLY and not a.hidden and not (self.inj and self.inj["op"] == "read"):
                self.do("read", f"path={self.R}{a.path},size=10,off=0", lambda: self.fs.read(h, 0, 10), may_fail=True)
        elif k == 2 and n and not self.inj:
            os.chmod(self.fs.root + n.path, 0)
            if not os.geteuid():
                h = self.do("open", f"path={self.R}{n.path},mode=O_RDWR", lambda: self.fs.open(n.path), may_fail=True)
                if h:
                    n.handles.append(h)
            os.chmod(self.fs.root + n.path, 0o644)
        elif k == 3 and n and self.dirs[1:]:
            d = self.r.choice(self.dirs[1:])
            if n.path.startswith(d + "/"):
                return                # the kernel does not send that
            self.do("rename", f"from={self.R}{n.path},to={self.R}{d}", lambda: self.fs.rename(n.path, d), may_fail=True)


ALWAYS = set(COVERED) | {"fdatasync"}


def read_log(text, everything):
    """[("line", name, args)] and [("fault",)] of a log, in order; every line is looked at."""
    out = []
    for line in text.split("\n"):
        m = re.match(r".*?\[lazyfs\.ops\]:\s*lfs_(\w+)\s*\((.*)\)\s*$", line)
        if m:
            if m.group(1) in ALWAYS or (everything and m.group(1) in ("mkdir", "rmdir", "unlink", "chmod", "utimens", "access", "link")):
                out.append(("line", m.group(1), m.group(2)))
        elif "Triggered fault condition" in line:
            out.append(("fault", None, None))
    return out


def compare_log(want, got):
    """Windows in order; inside one any order; lines that need not be there may be missing."""
    def fits(w, g):
        kind, name, args, _ = w
        if kind == "fault":
            return g[0] == "fault"
        if g[0] != "line":
            return False
        if kind == "hidden":
            m = re.fullmatch(r"from=(.*),to=(.*?/\.fuse_hidden\w*)", g[2])
            if g[1] == "rename" and m and m.group(1) == args:
                name.path = m.group(2)
                return True
            return False
        if g[1] != name:
            return False
        if isinstance(args, tuple):
            return g[2] == f"path={args[0].path}{args[1]}"
        if name in ("chmod", "utimens", "access", "rmdir", "mkdir", "unlink", "link"):
            return g[2] == args or g[2].startswith(args + ",")
        return g[2] == args

    at = {0}                          # how far in the log one can be: lines that need not be there may be there
    for window in want:
        nxt, stuck = set(), None
        for i in at:
            left = list(window)
            if not left[0][3]:
                nxt.add(i)
            while left:
                w = next((w for w in left if i < len(got) and fits(w, got[i])), None)
                if not w:
                    break
                left.remove(w)
                i += 1
            if not left:
                nxt.add(i)
            elif left[0][3]:
                stuck = max(stuck or (i, left[0]), (i, left[0]), key=lambda x: x[0])
        if not nxt:
            i, w = stuck
            g = f"'lfs_{got[i][1]}({got[i][2]})'" if i < len(got) and got[i][1] else "a fault" if i < len(got) else "the end of the log"
            raise Violation("log", f"{w[0]} lfs_{w[1] if w[0] == 'line' else ''}({w[2]}) was expected next in the log, "
                                   f"there is {g}; before it: {got[max(0, i - 3):i]}")
        at = nxt
    if len(got) not in at:
        i = max(at)
        raise Violation("log", f"the log has lfs_{got[i][1]}({got[i][2]}), which was not done at that time; before it: {got[max(0, i - 3):i]}")
    return len(got)


# ---- the parser ----

def fields(args, name):
    """What the parser shows of a line."""
    if name == "rename":
        m = re.fullmatch(r"from=(.*),to=(.*)", args)
        return {"syscall": name, "from_": m.group(1), "to": m.group(2)}
    m = re.fullmatch(r"path=(.*?)(?:,size=(\d+))?(?:,off=(\d+))?(?:,mode=(\w+))?(?:,isdatasync=[01])?", args)
    d = {"syscall": name, "path": m.group(1)}
    if name in ("read", "write"):
        d.update(size=m.group(2), off=m.group(3))
    if name in ("open", "create"):
        d.update(mode=m.group(4))
    return d


class Stub(types.ModuleType):
    """In place of pydot: the graph goes to a file as it was drawn."""

    def __init__(self):
        super().__init__("pydot")

        class Dot:
            def __init__(self, *a, **k):
                self.nodes, self.edges = [], []

            def add_node(self, n):
                self.nodes.append(n)

            def add_edge(self, e):
                self.edges.append(e)

            def write_png(self, path, *a, **k):
                with open(path, "w") as f:
                    json.dump({"nodes": [(n.n, n.k.get("label")) for n in self.nodes], "edges": [e.n for e in self.edges]}, f)

        class Node:
            def __init__(self, n, *a, **k):
                self.n, self.k = n, k

        class Edge:
            def __init__(self, a, b, *c, **k):
                self.n = (a, b)

        self.Dot, self.Node, self.Edge = Dot, Node, Edge


def run_parser(work, args):
    """parse.py with these arguments in `work`: what it prints."""
    argv, limit, cwd = sys.argv, sys.getrecursionlimit(), os.getcwd()
    keep = sys.modules.get("pydot")
    out = io.StringIO()
    os.chdir(work)
    sys.argv = ["parse.py"] + args
    sys.modules["pydot"] = Stub()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                runpy.run_path(os.path.join(build.REPO, "logparse", "parse.py"), run_name="__main__")
            except SystemExit as e:
                if e.code:
                    raise Violation("parser.exit", f"the parser refuses {args}: {out.getvalue()[-500:]}")
            except Exception as e:
                raise Violation("parser.exception", f"the parser fails with {e!r} on {args}")
    finally:
        sys.argv = argv
        sys.setrecursionlimit(limit)
        os.chdir(cwd)
        if keep is None:
            sys.modules.pop("pydot", None)
        else:
            sys.modules["pydot"] = keep
    return out.getvalue()


def same(shown, op, whole):
    """Whether an output item is this operation; in a group sizes, offsets and modes are not shown."""
    if shown.get("syscall") != op["syscall"]:
        return False
    keys = [k for k in op if k != "syscall"] if whole else [k for k in ("path", "from_", "to") if k in op]
    return all(k in shown and str(shown[k]) == str(op[k]) for k in keys)


def match(shown, ops, what):
    """shown: [(item, whole)] against the log's operations [(op, must)], in order."""
    i = 0
    for item, whole in shown:
        while i < len(ops) and not same(item, ops[i][0], whole) and not ops[i][1]:
            i += 1
        if i >= len(ops) or not same(item, ops[i][0], whole):
            raise Violation("parser." + what, f"the {what} output has {item} at place {i}, the log has {ops[i][0] if i < len(ops) else 'no more operations'}"
                                              f"; before it {[o for o, _ in ops[max(0, i - 3):i]]}")
        i += 1
    while i < len(ops) and not ops[i][1]:
        i += 1
    if i < len(ops):
        raise Violation("parser." + what, f"the {what} output ends before {ops[i][0]} (place {i} of {len(ops)})")
    return len(shown)


def unfold(groups):
    out = []
    for item, n in groups:
        if item.get("syscall") == "group":
            out += [(x, False) for _ in range(n) for x in item["group"]]
        else:
            out += [(item, True)] * n
    return out


def read_text(text):
    groups = []
    for m in re.finditer(r"(\*+ *FAULT *\*+)|reps: *(\d+)[^\n]*\n([^\n]*)\n", text):
        groups.append(({"syscall": "fault"}, 1) if m.group(1) else (ast.literal_eval(m.group(3)), int(m.group(2))))
    return groups


def read_graph(g):
    groups = []
    ids = [n for n, _ in g["nodes"]]
    if len(set(ids)) != len(ids):
        raise Violation("parser.graph", f"nodes of the graph share a name: {ids}")
    if [tuple(e) for e in g["edges"]] != list(zip(ids, ids[1:])):
        raise Violation("parser.graph", f"the edges {g['edges']} do not connect the nodes {ids} in order")
    for _, label in g["nodes"]:
        reps, items = 1, []
        for line in label.split("\n"):
            if not line.strip():
                continue
            m = re.fullmatch(r"reps (\d+)", line)
            if m:
                reps = int(m.group(1))
                continue
            m = re.fullmatch(r"(\w+)(?: from=(.*) to=(.*)| path=(.*?)(?: size=(\d+))?(?: off=(\d+))?(?: mode=(\w+))?)?", line)
            if not m:
                raise Violation("parser.graph", f"a node of the graph says {line!r}")
            items.append({k: v for k, v in zip(("syscall", "from_", "to", "path", "size", "off", "mode"), m.groups()) if v is not None})
        # a label does not say whether it is a group: sizes and modes are there or not
        whole = len(items) == 1 and (reps == 1 or "size" in items[0] or "mode" in items[0])
        if not whole and len(items) == 1:
            whole = False
        for _ in range(reps):
            groups += [(x, whole and any(k in x for k in ("size", "mode"))) for x in items]
    return groups


def judge_parser(work, log, r, tags):
    """Random filters and options; every output has exactly the operations of the log that were chosen."""
    with open(log) as f:
        lines = read_log(f.read(), True)
    compared = 0
    ops = [{"syscall": "fault"} if k == "fault" else None if n == "link" else fields(a, n) for k, n, a in lines]
    paths = sorted({o["path"] for o in ops if o and "path" in o})
    plain = [p for p in paths if not SPECIAL & set(p)]
    n = 0
    for mode in ("filter", "text", "graph", "text"):
        n += 1
        args = ["--logpath", log]
        chosen, files = set(COVERED), None
        if r.random() < 0.5:
            chosen = set(r.sample(COVERED + ("unlink",), r.randrange(1, 6)))
            args += ["--syscalls"] + sorted(chosen)
        if plain and r.random() < 0.4:
            files = set(r.sample(plain, r.randrange(1, min(4, len(plain)) + 1)))
            args += ["--files"] + sorted(files)
        if r.random() < 0.6:
            args += ["--group_limit", str(r.choice((1, 2, 3, 5, 8)))]
        out = f"o{n}"
        args += ["-o" if r.random() < 0.5 else "--out", out]
        page = 4096
        big = r.random() < 0.5
        if big:
            args += ["-bw" if r.random() < 0.5 else "--big_write"]
            if r.random() < 0.5:
                page = r.choice((1, 100, 4095, 8192))
                args += ["--page_size", str(page)]
        if mode == "filter":
            args.append("-fo" if r.random() < 0.5 else "--filter_only")
        elif mode == "text":
            args.append("-t" if r.random() < 0.5 else "--text")
        want = []
        for o in ops:
            if o is None or (o["syscall"] != "fault" and o["syscall"] not in chosen):
                continue
            must = True
            if files is not None and o["syscall"] == "rename":
                hits = (o["from_"] in files) + (o["to"] in files)
                if not hits:
                    continue
                must = hits == 2
            elif files is not None and o["syscall"] != "fault" and o["path"] not in files:
                continue
            want.append((o, must))
        said = run_parser(work, args)
        what = f"{mode} {'/'.join(args[2:])}"
        try:
            if mode == "filter":
                with open(f"{work}/{out}.txt") as f:
                    compared += match([(ast.literal_eval(x), True) for x in f.read().splitlines()], want, mode)
            elif mode == "text":
                with open(f"{work}/{out}.txt") as f:
                    compared += match(unfold(read_text(f.read())), want, mode)
            else:
                with open(f"{work}/{out}.png") as f:
                    compared += match(read_graph(json.load(f)), want, mode)
            if big:
                shown, cur = [], None
                for line in said.splitlines():
                    m = re.match(r"\s*-\s*size:\s*(\d+)\s*,\s*off:\s*(\d+)\s*,\s*occurrence:\s*(\d+)", line)
                    if m:
                        shown.append((cur,) + tuple(map(int, m.groups())))
                    elif line.startswith(">"):
                        cur = line[1:].strip()
                count, expect = {}, []
                for o, _ in want:
                    if o["syscall"] == "write":
                        count[o["path"]] = count.get(o["path"], 0) + 1
                        if int(o["size"]) > page:
                            expect.append((o["path"].strip(), int(o["size"]), int(o["off"]), count[o["path"]]))
                compared += len(expect)
                key = lambda x: (x[0] or "", x[3])
                if sorted(shown, key=key) != sorted(expect, key=key):
                    raise Violation("parser.big", f"writes above {page} bytes are given as {sorted(shown, key=key)[:6]}, the log has {sorted(expect, key=key)[:6]}")
        except Violation as v:
            raise Violation(v.kind, f"{v.detail}; arguments {args[2:]}")
        except (OSError, ValueError, SyntaxError, KeyError) as e:
            raise Violation("parser.output", f"the output cannot be read: {e!r}; arguments {args[2:]}")
        tags.add(f"{mode}/{'syscalls' if len(chosen) != len(COVERED) else 'all'}/{'files' if files else 'any'}{'/big' if big else ''}")
    return compared


# ---- a log of the check's own ----

def synthetic(r, path):
    alphabet = []
    for _ in range(r.randrange(1, 6)):
        p = r.choice(DIRS) + "/" + r.choice(NAMES)
        k = r.choice(COVERED + ("fault",) if r.random() < 0.3 else COVERED)
        alphabet.append((k, p, r.choice(DIRS) + "/" + r.choice(NAMES)))
    seq = []
    while len(seq) < r.choice((1, 3, 8, 15, 30, 60)):
        k = r.randrange(4)
        if k == 0:
            seq.append(r.choice(alphabet))
        elif k == 1:
            seq += [r.choice(alphabet)] * r.randrange(1, 6)
        elif k == 2:
            pat = [r.choice(alphabet) for _ in range(r.randrange(1, 6))]
            seq += (pat * r.randrange(1, 5))[:r.randrange(1, 30)]
        else:
            pat = [r.choice(alphabet) for _ in range(r.randrange(1, 4))]
            for _ in range(r.randrange(1, 5)):
                seq += pat + ([r.choice(alphabet)] if r.random() < 0.3 else [])
    out = []
    for k, p, q in seq:
        t = f"[2026-01-02 03:04:05.{r.randrange(1000):03d}] [global] "
        o = f"[info] [lazyfs.ops]: lfs_{k}(path={p}"
        if k == "fault":
            out.append(t + f"[critical] Triggered fault condition (op={r.choice(COVERED)},timing={r.choice(('before', 'after'))})")
        elif k == "rename":
            out.append(t + f"[info] [lazyfs.ops]: lfs_rename(from={p},to={q})")
        elif k in ("read", "write"):
            out.append(t + o + f",size={r.choice((1, 4095, 4096, 4097, 8193, 131072))},off={r.choice((0, 1, 4096, 1 << 40))})")
        elif k in ("open", "create"):
            out.append(t + o + f",mode={r.choice(('O_RDWR', 'O_RDONLY', 'O_WRONLY', 'O_TRUNC'))})")
        elif k == "fsync":
            out.append(t + o + f",isdatasync={r.randrange(2)})")
        elif k == "truncate":
            out.append(t + o + f",size={r.randrange(10000)})")
        else:
            out.append(t + o + ")")
        while r.random() < 0.2:
            out.append(t + r.choice((f"[info] [lazyfs.ops]: lfs_getattr(path={p})", "[info] [lazyfs.ops]: Calling a sparse write.",
                                     "[warning] [lazyfs.cmds]: cache is cleared.", f"[info] [lazyfs.ops]: lfs_readdir(path={p},off=0)",
                                     "[info] [lazyfs.faults.worker]: received 'lazyfs::clear-cache'", "",
                                     f"[warning] [lazyfs.faults]: Going to persist the write 1 for the path {p}")))
    with open(path, "w") as f:
        f.write("".join(x + "\n" for x in out))


def cases(tier, seed):
    out = []
    for i in range(1600 if tier == "quick" else 30000):
        r = random.Random(f"C21c-{seed}-{i}")
        if i % 4:
            out.append({"seed": f"C21-{seed}-{i}", "kind": "synthetic"})
            continue
        c = {"seed": f"C21-{seed}-{i}", "kind": "log", "n": r.choice((20, 60, 120)), "log": True,
             "cfg": {"manual": r.choice(((4096, 4096, 64), (512, 1024, 16), (4096, 4096, 4))), "eviction": r.random() < 0.5, "logops": True}}
        k = r.random()
        if k < 0.07:
            c["log"], c["cfg"]["logops"] = False, False
        elif k < 0.14:
            c["log"] = "stdout"
        elif k < 0.5:
            op = r.choice(("write", "read", "fsync", "truncate", "open", "create"))
            p = "/" + r.choice("abc")
            c["inj"] = {"type": "clear-cache", "op": op, "timing": r.choice(("before", "after")), "crash": False, "from": "@ROOT@" + p,
                        "occurrence": 1 if op == "create" else r.choice((1, 1, 2, 3)), "_path": p}
            c["cfg"]["injections"] = [c["inj"]]
        out.append(c)
    return out


def run_case(case, ctx):
    r = random.Random(case["seed"])
    out = {"stats": {}, "tags": [], "sig": case["seed"], "compared": 0}
    tags = set()
    if case["kind"] == "synthetic":
        with tempfile.TemporaryDirectory(dir=ctx["base"]) as work:
            synthetic(r, work + "/x.log")
            try:
                out["compared"] = judge_parser(work, work + "/x.log", r, tags)
            except Violation as v:
                with open(work + "/x.log") as f:
                    out["violation"] = {"kind": v.kind, "detail": v.detail + "\nlog:\n" + f.read()[-3000:]}
        out.update(tags=sorted(tags), stats={"synthetic": 1})
        return out
    fs = fuse.LazyFS(ctx["bin"]["plain"], base=ctx["base"], timeout=40.0)
    d = Driver(fs, r, case)
    log = fs.work + "/ops.log"
    case = dict(case, cfg=dict(case["cfg"], logfile="" if case["log"] == "stdout" else log))
    d.case = case
    try:
        d.far = 1 << r.choice((31, 32, 33))
        with open(fs.root + "/far file", "wb") as f:
            f.truncate(d.far)
        fuse.own(fs.root + "/far file")
        if not fs.start(case["cfg"]):
            raise fuse.Dead("lazyfs did not start")
        for _ in range(case["n"]):
            d.step()
        fs.kill()                                  # nothing that was answered is missing from the log
        if case["log"] == "stdout":
            log = fs.log_path
        with open(log) as f:
            text = f.read()
        if d.before and not text.startswith(d.before):
            text = d.before + text
            log = fs.work + "/all.log"
            with open(log, "w") as f:
                f.write(text)
        got = read_log(text, True)
        if case["log"] is False:
            out["compared"] += 1
            if [g for g in got if g[0] == "line"]:
                raise Violation("log.off", f"operations are logged without log_all_operations: {got[:2]}")
            tags.add("off")
        else:
            out["compared"] += compare_log(d.want, got)
            tags.add("log/" + ("stdout" if case["log"] == "stdout" else "file"))
            work = tempfile.mkdtemp(dir=fs.work)
            out["compared"] += judge_parser(work, log, r, tags)
    except Violation as v:
        out["violation"] = {"kind": v.kind, "detail": v.detail}
    except (fuse.Dead, BrokenPipeError) as e:
        out["violation"] = {"kind": "dead", "detail": f"lazyfs went away (exit {fs.wait_exit(30) if fs.proc else fs.exit}): {e}; {fs.log()[-600:]}"}
    except fuse.Hang as e:
        out["violation"] = {"kind": "hang", "detail": str(e)}
        out["confirm_runs"] = 3
    finally:
        fs.close()
    out.update(stats=d.stats, tags=sorted(tags | d.tags), requests=fs.requests)
    return out
