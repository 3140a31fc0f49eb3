"""C20: failures of the backing file system are reported and lose nothing."""
import errno
import os
import random

from vlib import fuse
from vlib.session import Violation, describe, pattern
from vlib.shimctl import Shim
from .common import ASSUME_CLIENT, ASSUME_LOCAL

LEVEL = "fault_enumeration"
SHIM = True
RULE = ("one case is a history in which about every second operation runs while one kind of call on the backing files fails (open, read, write, "
        "truncate, stat, rename, link, unlink, mkdir, opendir, ... with ENOSPC, EIO, EACCES, EMFILE, ... or writes that fall short, from the "
        "first to the fifth such call on, once or for as long as the operation lasts); after each of them all files are read, names are listed, "
        "and successful syncs are compared with the backing files; an operation answered with success must have had its whole effect, one "
        "answered with an error must have left everything else alone; it counts when at least one call was made to fail, distinct by seed")
ASSUMPTIONS = [ASSUME_CLIENT, ASSUME_LOCAL, "a write answered with an error may have been done in part, as in POSIX",
               "an operation that libfuse follows with a getattr may have been done when that one fails",
               "reads of the backing files fail or return what is there, they do not fall short"]
GEOMS = [((512, 512, 1024), 10, False), ((4096, 4096, 256), 6, False), ((512, 2048, 256), 10, False), ((64, 256, 512), 20, False),
         ((1000, 1000, 512), 8, False), ((512, 512, 5), 9, True), ((512, 1024, 4), 10, True), ((4096, 4096, 3), 5, True),
         ((64, 256, 4), 20, True), ((512, 512, 5), 9, False), ((64, 64, 3), 12, False), ((512, 2048, 3), 12, True)]
ERR = {"open": ("EMFILE", "EACCES", "EIO", "ENFILE"), "read": ("EIO",), "write": ("ENOSPC", "EIO", "EDQUOT", "EFBIG"),
       "trunc": ("EIO", "ENOSPC", "EPERM"), "sync": ("EIO", "ENOSPC"), "stat": ("EIO", "EACCES"), "rename": ("ENOSPC", "EIO", "EACCES"),
       "link": ("EMLINK", "ENOSPC"), "unlink": ("EACCES", "EIO"), "symlink": ("ENOSPC",), "mkdir": ("ENOSPC", "EMLINK"), "rmdir": ("EBUSY",),
       "opendir": ("EMFILE", "EIO"), "access": ("EIO",), "chmod": ("EPERM",), "times": ("EPERM",)}
# operation -> kinds of calls that can matter to it, most likely ones more often
HITS = {"write": ("write", "read", "open", "stat", "write", "read"), "read": ("read", "open", "stat", "write"),
        "fsync": ("write", "write", "open", "trunc", "sync", "stat", "times"), "truncate": ("trunc", "open", "read", "write", "stat"),
        "ftruncate": ("trunc", "open", "read", "write", "stat"), "stat": ("stat",), "create": ("open", "stat"), "open": ("open", "stat", "trunc"),
        "unlink": ("unlink", "stat", "open", "rename"), "rename": ("rename", "stat", "open", "opendir"), "renamedir": ("rename", "stat", "opendir"),
        "link": ("link", "stat", "open"), "mkdir": ("mkdir", "stat"), "checkpoint": ("write", "open", "trunc", "stat"),
        "grow": ("write", "read", "open", "trunc"), "utimens": ("times", "stat"), "release": ("write", "open")}
W = {"write": 26, "read": 9, "fsync": 12, "truncate": 7, "ftruncate": 6, "stat": 2, "create": 4, "open": 5, "unlink": 4, "rename": 6,
     "renamedir": 2, "link": 3, "mkdir": 2, "checkpoint": 4, "grow": 6, "utimens": 1, "release": 4, "clear": 4}


class F:
    def __init__(self):
        self.data = bytearray()
        self.ghost = {}          # offset -> bytes of a failed write that may be there when the file grows
        self.paths = set()
        self.handles = []
        self.locked = False


class Driver:
    def __init__(self, fs, shim, r, bs, mb):
        self.fs, self.shim, self.r, self.bs, self.mb = fs, shim, r, bs, mb
        self.files = []
        self.dirs = {"/", "/p"}
        self.seed = r.randrange(1 << 40)
        self.stats, self.tags = {}, set()
        self.compared = self.failed = self.fired = 0
        self.what = ""
        self.hits = 0

    # ---- model ----

    def resize(self, f, n):
        old = len(f.data)
        if n < old:
            del f.data[n:]
        else:
            f.data += bytes(n - old)

    def pick(self, opened=False):
        fs = [f for f in self.files if (f.handles if opened else f.paths)]
        return self.r.choice(fs) if fs else None

    def fresh(self):
        while True:
            p = self.r.choice(sorted(self.dirs)).rstrip("/") + "/" + self.r.choice("abcdefghijkl")
            if p not in self.dirs and not any(p in f.paths for f in self.files):
                return p

    def bad(self, kind, detail):
        raise Violation(kind, f"{detail}; after {self.what}")

    def checked(self):
        """Called after each step."""

    def finish(self, case):
        """After the last step."""
        fs = self.fs
        self.what += " ... final look"
        self.look("final")
        for f in self.files:
            if not f.paths:
                continue
            h = f.handles[0] if f.handles else fs.open(sorted(f.paths)[0])
            fs.fsync(h)
            self.after_success("fsync", f)
        fs.kill()
        fs.start(case["cfg"])
        self.files = [f for f in self.files if f.paths]
        for f in self.files:
            f.handles = []
        self.what = "a crash and a restart after syncing all files"
        self.look("restart")

    # ---- looking ----

    def view(self, f):
        h = f.handles[0] if f.handles and self.r.random() < 0.5 else None
        p = self.r.choice(sorted(f.paths)) if f.paths else None
        if h is None and p is None:
            h = f.handles[0]
        a = self.fs.fstat(h) if h else self.fs.stat(p)
        g = h or self.fs.open(p, os.O_RDONLY)
        d = self.fs.read_all(g, a.size)
        if not h:
            self.fs.release(g)
        if len(d) != a.size:
            self.bad("size", f"{sorted(f.paths)} has size {a.size} but {len(d)} bytes can be read")
        return d

    def look(self, kind, subject=None, alt=None):
        """All files have the content the model says; `subject` may instead look like `alt` (partly)."""
        for f in self.files:
            if not f.paths and not f.handles:
                continue
            try:
                d = self.view(f)
            except OSError as e:
                self.bad(kind + ".unreadable", f"{sorted(f.paths)} cannot be read any more: {e}")
            self.compared += 1
            if d == bytes(f.data):
                continue
            if f is subject and alt is not None:
                lo, hi = sorted((len(f.data), len(alt)))
                if not lo <= len(d) <= hi:
                    self.bad(kind + ".size", f"{sorted(f.paths)} has {len(d)} bytes, {len(f.data)} before and {len(alt)} if it had worked")
                for i, b in enumerate(d):
                    if b not in (f.data[i] if i < len(f.data) else 0, alt[i] if i < len(alt) else 0) and f.ghost.get(i) != b:
                        self.bad(kind + ".content", f"{sorted(f.paths)} byte {i} is {b:02x}, neither old nor new")
                f.data[:] = d
            elif len(d) == len(f.data) and all(a == b or f.ghost.get(i) == b for i, (a, b) in enumerate(zip(d, f.data)) if a != b):
                f.data[:] = d
            else:
                self.bad(kind + ".lost", f"{sorted(f.paths)} has {describe(d, bytes(f.data))}" + ("" if f is subject else " (not even the file concerned)"))
        for d in sorted(self.dirs):
            names = sorted(n for n, _ in self.fs.readdir(d) if n not in (".", "..") and not n.startswith(".fuse_hidden"))
            want = sorted(p.rsplit("/", 1)[1] for p in list(self.dirs - {"/"}) + [p for f in self.files for p in f.paths]
                          if (p.rsplit("/", 1)[0] or "/") == d)
            self.compared += 1
            if names != want:
                self.bad(kind + ".names", f"{d} lists {names}, expected {want}")

    def disk(self, f):
        with open(self.fs.root + sorted(f.paths)[0], "rb") as fd:
            return fd.read()

    # ---- one operation ----

    def arm(self, op):
        r = self.r
        kinds = HITS[op] if r.random() < 0.85 else tuple(ERR)
        k = r.choice(kinds)
        err = getattr(errno, r.choice(ERR[k]))
        after, times = r.choice((0, 0, 0, 0, 1, 1, 2, 3, 5)), r.choice((1, 1, -1, -1, 2))
        cut = 0
        if k == "write" and r.random() < 0.3:
            cut = r.choice((1, self.bs // 2 + 1, self.bs, self.bs + 3, 3 * self.bs))
        self.armed = k
        self.shim.clear()
        self.shim.rule(k, err=0 if cut else err, after=after, times=times, cut=cut)
        self.shim.arm()
        return f"{k} {'cut to %d' % cut if cut else errno.errorcode[err]} after {after}, {times} times"

    def disarm(self):
        n = self.shim.hits(self.armed) if self.armed else 0
        self.shim.clear()
        return n

    def step(self, faulty):
        r = self.r
        op = r.choices(list(W), list(W.values()))[0]
        if op == "clear":         # files that are not cached take other paths
            self.fs.checkpoint()
            self.fs.clear_cache()
            self.what = "cache-checkpoint and clear-cache"
            self.trail = (getattr(self, "trail", []) + [self.what])[-60:]
            return
        plan = getattr(self, "p_" + op)()
        if not plan:
            return
        name, call, effect, subject, alt, strict = plan
        self.stats[op] = self.stats.get(op, 0) + 1
        self.armed = None
        how = self.arm(op) if faulty else "no failure"
        self.what = f"{name} with {how}"
        self.trail = (getattr(self, "trail", []) + [self.what])[-60:]
        err = res = None
        try:
            res = call()
        except fuse.FuseError as e:
            err = e
        hits = self.disarm()
        self.hits = hits
        if err is None:
            self.what += f" (answered with success, {hits} calls failed)"
            effect(res)
            self.after_success(op, subject)
        else:
            self.what += f" (answered {errno.errorcode.get(err.errno, err.errno)}, {hits} calls failed)"
            self.failed += 1
            if not hits:
                self.bad("error", f"{name} failed with {err} though nothing was made to fail")
        self.fired += bool(hits)
        if hits:
            self.tags.add(f"{op}/{self.armed}/{'error' if err else 'success'}")
        if faulty or r.random() < 0.15:
            if err is not None and not strict and self.armed == "stat":
                self.settle_names(effect)
            if err is None or alt is None:
                self.look("failure" if hits else "plain")
            else:
                if op in ("write", "grow"):
                    for i in range(len(subject.data), len(alt)):
                        subject.ghost[i] = alt[i]
                self.look("failure", subject, alt)

    def settle_names(self, effect):
        """The name operation was answered with an error that may come from libfuse's getattr afterwards: see what is there."""
        effect(None)

    def after_success(self, op, f):
        if op == "fsync" and f is not None and f.paths:
            self.compared += 1
            d = self.disk(f)
            if d != bytes(f.data):
                if len(d) == len(f.data) and all(a == b or f.ghost.get(i) == a for i, (a, b) in enumerate(zip(d, f.data)) if a != b):
                    return
                self.bad("sync", f"a sync of {sorted(f.paths)} was answered with success but its backing file has {describe(d, bytes(f.data))}")

    # ---- plans: (name, call, effect of success, file concerned, its content after success, strict) ----

    def place(self, f):
        r, bs, n = self.r, self.bs, len(f.data)
        off = r.choice((r.randrange(self.mb) * bs, r.randrange(n + 1), n, r.randrange(self.mb * bs)))
        ln = r.choice((bs, 2 * bs, r.randrange(1, bs + 1), r.randrange(1, 4 * bs), 1))
        return off, ln

    def p_write(self, grow=False):
        f = self.pick(True)
        if not f:
            return None
        h = self.r.choice(f.handles)
        off, n = self.place(f)
        if grow:
            off = len(f.data) + self.r.randrange(1, 3 * self.bs)
        if off + n > (self.mb + 6) * self.bs:
            return None
        self.seed += 1
        data = pattern(self.seed, n)
        alt = bytearray(f.data)
        if off > len(alt):
            alt += bytes(off - len(alt))
        alt[off:off + n] = data

        def effect(res):
            if res != n:
                self.bad("short", f"a write of {n} bytes was answered with {res}")
            f.data[:] = alt
            for i in range(off, off + n):
                f.ghost.pop(i, None)

        return f"write {sorted(f.paths)} at {off} of {n}", lambda: self.fs.write(h, off, data), effect, f, bytes(alt), True

    def p_grow(self):
        return self.p_write(grow=True)

    def p_read(self):
        f = self.pick(True)
        if not f:
            return None
        h = self.r.choice(f.handles)
        off, n = self.place(f)
        n = min(n * self.r.choice((1, 3, 10)), fuse.MAX_IO)

        def effect(d):
            want = bytes(f.data[off:off + n])
            self.compared += 1
            if d != want and not (len(d) == len(want) and all(a == b or f.ghost.get(off + i) == a for i, (a, b) in enumerate(zip(d, want)))):
                self.bad("read", f"a read of {sorted(f.paths)} at {off} was answered with {describe(d, want)}")

        return f"read {sorted(f.paths)} at {off} of {n}", lambda: self.fs.read(h, off, n), effect, f, None, True

    def p_fsync(self):
        f = self.pick(True)
        if not f:
            return None
        h, ds = self.r.choice(f.handles), self.r.random() < 0.4
        return f"{'fdatasync' if ds else 'fsync'} {sorted(f.paths)}", lambda: self.fs.fsync(h, ds), lambda _: None, f, None, True

    def size(self, f):
        r, n = self.r, len(f.data)
        return r.choice((0, r.randrange(n + 1), r.randrange(self.mb * self.bs), r.randrange(self.mb) * self.bs, n + 1))

    def p_truncate(self, h=None):
        f = self.pick(h is not None)
        if not f:
            return None
        n = self.size(f)
        alt = bytes(f.data[:n]) + bytes(max(0, n - len(f.data)))
        p = self.r.choice(sorted(f.paths)) if h is None else None
        hh = self.r.choice(f.handles) if h else None
        call = (lambda: self.fs.ftruncate(hh, n)) if h else (lambda: self.fs.truncate(p, n))

        def effect(_):
            f.data[:] = alt
        return f"truncate {sorted(f.paths)} to {n}", call, effect, f, alt, True

    def p_ftruncate(self):
        return self.p_truncate(True)

    def p_stat(self):
        f = self.pick()
        if not f:
            return None
        p = self.r.choice(sorted(f.paths))

        def effect(a):
            self.compared += 1
            if a.size != len(f.data):
                self.bad("stat", f"{p} has size {a.size}, expected {len(f.data)}")
        return f"stat {p}", lambda: self.fs.stat(p), effect, f, None, True

    def p_create(self):
        if len(self.files) > 6:
            return None
        p = self.fresh()

        def effect(h):
            if h is None and not os.path.lexists(self.fs.root + p):
                return
            f = F()
            f.paths.add(p)
            if h:
                f.handles.append(h)
            self.files.append(f)
        return f"create {p}", lambda: self.fs.create(p), effect, None, None, False

    def p_open(self):
        f = self.pick()
        if not f or len(f.handles) > 3:
            return None
        p = self.r.choice(sorted(f.paths))
        return f"open {p}", lambda: self.fs.open(p), f.handles.append, f, None, True

    def p_release(self):
        f = self.pick(True)
        if not f:
            return None
        h = f.handles.pop(self.r.randrange(len(f.handles)))
        if not f.paths and not f.handles:
            self.files.remove(f)
        return f"release {sorted(f.paths)}", lambda: self.fs.release(h), lambda _: None, None, None, True

    def p_unlink(self):
        f = self.pick()
        if not f or len(self.files) < 3:
            return None
        p = self.r.choice(sorted(f.paths))

        def effect(res):
            f.paths.discard(p)
            if not f.paths and not f.handles:
                self.files.remove(f)
        # an open file is renamed by libfuse
        return f"unlink {p}", lambda: self.fs.unlink(p), effect, None, None, True

    def p_rename(self):
        f = self.pick()
        if not f:
            return None
        a = self.r.choice(sorted(f.paths))
        g = self.pick() if self.r.random() < 0.4 else None
        if g is f or (g and (g.handles or len(self.files) < 4)):
            g = None
        b = self.r.choice(sorted(g.paths)) if g else self.fresh()

        def effect(res):
            if g:
                g.paths.discard(b)
                if not g.paths and not g.handles:
                    self.files.remove(g)
            f.paths.discard(a)
            f.paths.add(b)
        return f"rename {a} to {b}", lambda: self.fs.rename(a, b), effect, None, None, True

    def p_renamedir(self):
        ds = sorted(d for d in self.dirs if d != "/")
        a = self.r.choice(ds)
        b = "/" + self.r.choice("pqrst")
        if b in self.dirs:
            return None

        def effect(res):
            mv = lambda q: b + q[len(a):] if q == a or q.startswith(a + "/") else q
            self.dirs = {mv(d) for d in self.dirs}
            for f in self.files:
                f.paths = {mv(q) for q in f.paths}
        return f"rename {a} to {b}", lambda: self.fs.rename(a, b), effect, None, None, True

    def p_link(self):
        f = self.pick()
        if not f or len(f.paths) > 3:
            return None
        a, b = self.r.choice(sorted(f.paths)), self.fresh()

        def effect(res):
            if os.path.lexists(self.fs.root + b):
                f.paths.add(b)
        return f"link {a} to {b}", lambda: self.fs.link(a, b), effect, None, None, False

    def p_mkdir(self):
        d = self.fresh().upper()
        if len(self.dirs) > 4 or "/" in d[1:] or d in self.dirs:
            return None

        def effect(res):
            if os.path.isdir(self.fs.root + d):
                self.dirs.add(d)
        return f"mkdir {d}", lambda: self.fs.mkdir(d), effect, None, None, False

    def p_checkpoint(self):
        return "cache-checkpoint", self.fs.checkpoint, lambda _: None, None, None, True

    def p_utimens(self):
        f = self.pick()
        p = f and self.r.choice(sorted(f.paths))
        return f and (f"utimens {p}", lambda: self.fs.utimens(p, 10**18, 10**18), lambda _: None, f, None, True)


def cases(tier, seed):
    out = []
    for i in range(1200 if tier == "quick" else 24000):
        g, mb, ev = GEOMS[i % len(GEOMS)]
        out.append({"seed": f"C20-{seed}-{i}", "cfg": {"manual": g, "eviction": ev}, "mb": mb, "n": 70})
    return out


def run_case(case, ctx, cls=Driver):
    r = random.Random(case["seed"])
    fs = fuse.LazyFS(ctx["bin"]["plain"], base=ctx["base"], timeout=40.0)
    shim = Shim(ctx["shim"], fs.work, fs.root)
    fs.env.update(shim.env)
    out = {"stats": {}, "tags": [], "sig": case["seed"]}
    d = cls(fs, shim, r, case["cfg"]["manual"][0], case["mb"])
    try:
        os.mkdir(fs.root + "/p")
        fuse.own(fs.root + "/p")
        for p in ("/a", "/p/b", "/c"):
            if r.random() < 0.7:
                f = F()
                f.paths.add(p)
                f.data[:] = pattern(d.seed, r.randrange(1, case["mb"] * d.bs))
                d.seed += 1
                with open(fs.root + p, "wb") as fd:
                    fd.write(f.data)
                fuse.own(fs.root + p)
                d.files.append(f)
        if not fs.start(case["cfg"]):
            raise fuse.Dead("lazyfs did not start")
        while len(d.files) < 3:
            f = F()
            p = d.fresh()
            f.paths.add(p)
            f.handles.append(fs.create(p))
            d.files.append(f)
        for i in range(case["n"]):
            d.step(r.random() < 0.55)
            d.checked()
        d.finish(case)
    except Violation as v:
        out["violation"] = {"kind": v.kind, "detail": v.detail + "\nhistory: " + "; ".join(getattr(d, "trail", [])[-25:])}
    except fuse.FuseError as e:
        out["violation"] = {"kind": "error", "detail": f"{e} although nothing was made to fail; after {d.what}"}
    except (fuse.Dead, BrokenPipeError) as e:
        out["violation"] = {"kind": "dead", "detail": f"lazyfs went away (exit {fs.wait_exit(30) if fs.proc else fs.exit}): {e}; after {d.what}; {fs.log()[-800:]}"}
    except fuse.Hang as e:
        out["violation"] = {"kind": "hang", "detail": f"{e}; {d.what}"}
        out["confirm_runs"] = 3
    finally:
        shim.close()
        fs.close()
    out.update(stats=d.stats, tags=sorted(d.tags), compared=d.compared, requests=fs.requests, nontrivial=d.fired > 0,
               extra={"operations_with_failing_calls": d.fired, "operations_answered_with_errors": d.failed})
    return out
