"""Runs operations on a real lazyfs and, in step, on a small reference model; compares what can be observed.

An operation is a JSON object, so a list of them (plus the configuration) is a complete, replayable test case.
What is compared is chosen by `kinds`: every disagreement carries a kind such as 'data', 'attr.size',
'disk.fsync' or 'errno.rename', and a check only reports the kinds its own property speaks about.
"""

import errno as E
import hashlib
import os
import random
import re
import signal
import stat as S
import time

from . import fuse


class Violation(Exception):
    def __init__(self, kind, detail):
        super().__init__(f"{kind}: {detail}")
        self.kind, self.detail = kind, detail


class Inconclusive(Exception):
    """A disagreement this check does not speak about: the model can no longer be trusted, the case stops."""


class Foreign(Exception):
    """A disagreement this check does not speak about: the operation is given up, the case goes on."""


class PredictedDeath(Exception):
    """A fault that was due has just ended lazyfs before the operation."""


FAULT_OPS = ("unlink", "truncate", "fsync", "write", "create", "access", "open", "read", "rename", "link", "symlink")
HIDDEN = "/.fuse_hidden0000"
_patterns = {}


def pattern(seed, n):
    """The bytes of one write: unlike any other write's, position by position."""
    if n > 1 << 16:
        return random.Random(seed).randbytes(n)
    k = (seed, n)
    if k not in _patterns:
        if len(_patterns) > 4096:
            _patterns.clear()
        _patterns[k] = random.Random(seed).randbytes(n)
    return _patterns[k]


class File:
    __slots__ = ("data", "disk", "hist", "links", "hidden", "ino", "mode", "mtime_min", "mtime", "atime", "uid",
                 "touched", "serial", "meta_dirty", "must", "may", "cut")
    count = 0

    def __init__(self):
        File.count += 1
        self.serial = File.count
        self.data = bytearray()
        self.disk = b""
        self.hist = []
        self.links = set()
        self.hidden = 0
        self.ino = 0
        self.mode = 0o644
        self.mtime_min = 0
        self.mtime = None
        self.atime = None
        self.touched = False
        self.meta_dirty = False
        self.must = set()        # blocks written since the last sync
        self.may = set()         # blocks that zero-filling or cutting may have touched as well
        self.cut = False         # truncated since the last sync

    def nlink(self):
        return len(self.links) + self.hidden


def first_diff(a, b):
    n = min(len(a), len(b))
    if a[:n] == b[:n]:
        return n
    lo, hi = 0, n
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if a[lo:mid] == b[lo:mid]:
            lo = mid
        else:
            hi = mid
    return lo


def describe(got, want):
    if len(got) != len(want) and bytes(got[:min(len(got), len(want))]) == bytes(want[:min(len(got), len(want))]):
        return f"{len(got)} bytes where {len(want)} were expected (same up to there)"
    d = first_diff(got, want)
    return (f"{len(got)} bytes (expected {len(want)}), first difference at byte {d}: "
            f"{bytes(got[d:d + 8]).hex()} instead of {bytes(want[d:d + 8]).hex()}")


class Session:
    """`relaxed`: the cache may be under pressure, so the backing files may legitimately run ahead of the last sync."""

    def __init__(self, binary, cfg, kinds, base=None, relaxed=False, env=None, timeout=60.0, pre=None):
        self.fs = fuse.LazyFS(binary, base=base, env=env, timeout=timeout)
        self.cfg = cfg
        self.kinds = tuple(kinds)
        self.no_lseek = False
        self.relaxed = relaxed
        self.files = {}          # path -> File
        self.dirs = {"/"}
        self.syms = {}
        self.ro_dirs = set()
        self.handles = {}        # id -> [File, fuse handle, flags, path or None when hidden]
        self.seen = set()        # names lazyfs has been asked about since it started or forgot everything
        self.seen_hidden = set() # the same for names removed while open: (file, node)
        self.ops = []
        self.foreign = []
        self.faults = None       # see vlib/faults.py
        self.dying = self.losing = False
        self.fired = self.deaths = 0
        self.fdreader = None
        self.orphan = False
        self.stats = {}
        self.tags = set()
        self.cleared = True      # nothing can have been cached since the start, the last clear-cache or crash
        self.last_tag = None
        self.compared = 0
        self.bytes_compared = 0
        self.bs = cfg["manual"][0] if "manual" in cfg else 4096
        for path, seed, n in pre or []:
            self._pre(path, seed, n)

    def _pre(self, path, seed, n):
        """A file that was there before lazyfs started."""
        real = self.fs.root + path
        d = os.path.dirname(path)
        if d not in self.dirs:
            os.makedirs(os.path.dirname(real), exist_ok=True)
            p = d
            while p not in self.dirs:
                self.dirs.add(p)
                fuse.own(self.fs.root + p)
                p = os.path.dirname(p)
        with open(real, "wb") as f:
            f.write(pattern(seed, n))
        fuse.own(real)
        f = File()
        f.data = bytearray(pattern(seed, n))
        f.disk = bytes(f.data)
        f.links = {path}
        f.ino = os.stat(real).st_ino
        f.mode = S.S_IMODE(os.stat(real).st_mode)
        self.files[path] = f

    # ---- verdicts ----

    def speaks(self, kind):
        return any(kind == k or kind.startswith(k + ".") for k in self.kinds)

    def bad(self, kind, detail):
        self.soft(kind, detail)
        if kind.split(".")[0] in ("unnamed", "dead", "hang"):
            raise Inconclusive(f"{kind}: {detail}")
        raise Foreign()

    def soft(self, kind, detail):
        """The same, where the rest of the operation can go on."""
        if self.speaks(kind):
            raise Violation(kind, detail)
        if len(self.foreign) < 5:
            self.foreign.append(f"{kind}: {detail}"[:300])

    def note(self, *tag):
        """Situations the workload reached."""
        self.tags.add(tag)

    # ---- process ----

    def start(self):
        if not self.fs.start(self.cfg):
            rc = self.fs.wait_exit(10)
            self.bad("dead.start", f"lazyfs did not start (exit {rc}): {self.fs.log()[-600:]}")

    def close(self):
        self.fs.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # ---- running ----

    def apply(self, op):
        self.ops.append(op)
        name = op["op"]
        self.stats[name] = self.stats.get(name, 0) + 1
        if name in ("write", "read", "truncate", "ftruncate", "readall", "verify", "open"):
            self.cleared = False
        try:
            before = self.fs.requests
            named = [op[k] for k in ("path", "a", "b") if k in op]
            tells = op["op"] in ("write", "fstat", "ftruncate")      # operations on a handle that tell lazyfs its name
            if tells and op["h"] in self.handles and self.handles[op["h"]][3]:
                named.append(self.handles[op["h"]][3])
            hidden = self.handles[op["h"]] if tells and op["h"] in self.handles and not self.handles[op["h"]][3] else None
            try:
                getattr(self, "do_" + name)(op)
            except Foreign:
                pass
            except PredictedDeath:
                self.dying = True
            self.settle()
            if self.fs.requests > before:
                self.seen.update(named)
                if hidden:
                    self.seen_hidden.add((hidden[0].serial, hidden[1].node))
            self.seen &= self.files.keys()
        except fuse.Dead as e:
            rc = self.fs.wait_exit(30)
            self.bad("dead", f"lazyfs went away during {op} (exit {rc}): {self.fs.log()[-1500:]}")
        except fuse.Hang as e:
            self.bad("hang", f"no answer to {op}: {e}")

    # ---- operations that faults can act on ----

    def lop(self, name, frm, to, call, ok=True, write=None):
        """Every operation that a fault can be tied to goes through here; `ok` stands for the answer that never comes."""
        if self.faults is None:
            return call()
        f = self.faults
        real = [self.fs.root + p if p.startswith("/") else p for p in (frm, to)]
        before, after = f.match(name, *real)
        if "crash" in before:
            self.expect_death(name, frm, to, call, "before")
            raise PredictedDeath()
        if before:
            self.fired += 1
            self.lost()
        parts, die = f.torn(real[0], *write[1:]) if write else ((), False)
        if die or "crash" in after:
            self.expect_death(name, frm, to, call, "torn" if die else "after")
            self.dying = True
            r = ok
        else:
            r = call()
            if after:
                self.fired += 1
                self.losing = True
        for off, data in parts:
            d = bytearray(write[0].disk)
            if off > len(d):
                d += bytes(off - len(d))
            d[off:off + len(data)] = data
            write[0].disk = bytes(d)
        if parts:
            self.note("torn", die, len(parts))
        return r

    def expect_death(self, name, frm, to, call, when):
        self.fired += 1
        try:
            call()
        except fuse.Dead:
            self.dying = True
            self.note("death", name, when)
            return
        except fuse.FuseError as e:
            self.bad("fault.missing", f"the fault due {when} {name} {frm} {to} did not happen: answered {e}")
        self.bad("fault.missing", f"the fault due {when} {name} {frm} {to} did not happen: the operation was answered")

    def settle(self):
        """What a fault that acted after the operation has done, once the model knows the operation."""
        while self.losing or self.dying:
            if not self.dying:
                self.losing = False
                self.lost()
                continue
            self.dying = self.losing = False
            rc = self.fs.wait_exit(30)
            if rc != -9:
                self.bad("fault.exit", f"lazyfs ended with {rc} instead of killing itself: {self.fs.log()[-600:]}")
            self.deaths += 1
            self.handles.clear()
            self.drop_unlinked()
            self.lost()
            self.seen.clear()
            self.seen_hidden.clear()
            for f in self.all_files():
                self.check_disk(f, "fault.disk", "after the fault")
            self.check_tree("fault.tree", "after the fault")
            if self.deaths >= 4 and self.faults.configured:
                self.cfg = {k: v for k, v in self.cfg.items() if k != "injections"}
                self.faults.configured = []
            self.faults.restarted()
            self.start()
            self.check_tree("fault.tree", "after the fault and a restart", mount=True)
            try:
                self.verify("fault.content", "after the fault and a restart")
            except PredictedDeath:
                self.dying = True

    def check_tree(self, kind, why, mount=False):
        for d in sorted(self.dirs):
            try:
                names = [n for n, t in self.fs.readdir(d)] if mount else os.listdir(self.fs.root + d)
            except OSError as e:
                self.bad(kind, f"{d} cannot be listed {why}: {e}")
            names = sorted(n for n in names if n not in (".", "..") and not n.startswith(".fuse_hidden"))
            want = sorted(self.children(d))
            self.compared += 1
            if names != want:
                self.bad(kind, f"{d} lists {names} {why}, expected {want}")

    def run(self, ops):
        for op in ops:
            self.apply(op)

    def expect(self, what, op, want, call):
        """Calls; `want` is the errno expected (0: success).  True on success."""
        if want != 0 and self.faults is not None and what in FAULT_OPS:
            return None                         # whether an operation that fails counts for a fault is left open
        try:
            r = call()
        except fuse.FuseError as e:
            if want == 0:
                self.bad(f"errno.{what}", f"{op} failed with {E.errorcode.get(e.errno, e.errno)}")
            if e.errno != want and not (isinstance(want, tuple) and e.errno in want):
                self.bad(f"errno.{what}", f"{op} failed with {E.errorcode.get(e.errno, e.errno)} "
                                          f"instead of {E.errorcode.get(want, want)}")
            return None
        if want != 0 and not (isinstance(want, tuple) and 0 in want):
            self.bad(f"errno.{what}", f"{op} succeeded; {E.errorcode.get(want, want)} was expected")
        return r if r is not None else True

    # ---- helpers ----

    def exists(self, p):
        return p in self.files or p in self.dirs or p in self.syms

    def parent_ok(self, p):
        return os.path.dirname(p) in self.dirs

    def real(self, f):
        """The backing file's path."""
        for p in f.links:
            return self.fs.root + p
        for d in self.dirs:
            try:
                for e in os.scandir(self.fs.root + d):
                    if e.name.startswith(".fuse_hidden") and e.inode() == f.ino:
                        return e.path
            except OSError:
                pass
        return None

    def hidden_names(self, f):
        n = 0
        for d in self.dirs:
            try:
                n += sum(1 for e in os.scandir(self.fs.root + d) if e.name.startswith(".fuse_hidden") and e.inode() == f.ino)
            except OSError:
                pass
        return n

    def disk_bytes(self, f):
        p = self.real(f)
        if p is None:
            return None
        try:
            with open(p, "rb") as fd:
                return fd.read()
        except FileNotFoundError:
            return None

    def all_files(self):
        seen = {}
        for f in self.files.values():
            seen[f.serial] = f
        for f, *_ in self.handles.values():
            if f.nlink():
                seen[f.serial] = f
        return list(seen.values())

    def name_of(self, f):
        return sorted(f.links)[0] if f.links else f"(unlinked, serial {f.serial})"

    def changed(self, f):
        """The visible content has just been changed."""
        f.touched = True
        f.meta_dirty = True
        f.mtime = None
        if self.relaxed:
            f.hist.append(bytes(f.data))
            if len(f.hist) > 400:
                del f.hist[1:100]

    def synced(self, f):
        f.disk = bytes(f.data)
        f.hist = []
        f.touched = False
        self.clean(f)

    @staticmethod
    def clean(f):
        f.must = set()
        f.may = set()
        f.cut = False

    def resized(self, f, old, new):
        bs = self.bs
        if new < old:
            top = -(-new // bs)
            f.must = {b for b in f.must if b < top}
            f.may = {b for b in f.may if b < top}
            if new % bs:
                f.may.add(new // bs)
        elif new > old:
            f.may.update(range(old // bs, -(-new // bs)))

    def disk_ok(self, f, got):
        """May the backing file hold `got`?  None: yes; otherwise what is wrong."""
        if not self.relaxed:
            if got == f.disk:
                return None
            return describe(got, f.disk)
        if got == f.disk:
            return None
        snaps = [f.disk] + f.hist
        sizes = {len(s) for s in snaps}
        m = max(sizes)
        if len(got) > m:
            return f"{len(got)} bytes, though the file never had more than {m} since it was last synced"
        lo = min(sizes)
        # byte by byte: the value of some version since the last sync, or a hole beyond what was persisted
        ok = bytearray(len(got))
        gi = got
        for s in snaps:
            n = min(len(s), len(gi))
            if s[:n] == gi[:n]:
                for i in range(n):
                    ok[i] = 1
            else:
                for i in range(n):
                    if s[i] == gi[i]:
                        ok[i] = 1
        for i in range(len(gi)):
            if not ok[i]:
                if gi[i] == 0 and i >= min(len(f.disk), lo):
                    continue
                return f"byte {i} is {gi[i]:#x}, which no version since the last sync had"
        return None

    def check_disk(self, f, kind, why):
        got = self.disk_bytes(f)
        self.compared += 1
        if got is None:
            self.bad(kind, f"{self.name_of(f)}: the backing file is missing {why}")
        self.bytes_compared += len(got)
        w = self.disk_ok(f, got)
        if w:
            self.bad(kind, f"{self.name_of(f)}: the backing file {why} holds {w}")

    def check_disk_exact(self, f, kind, why):
        got = self.disk_bytes(f)
        self.compared += 1
        if got is None:
            self.bad(kind, f"{self.name_of(f)}: the backing file is missing {why}")
        self.bytes_compared += len(got)
        if got != bytes(f.data):
            self.bad(kind, f"{self.name_of(f)}: the backing file {why} holds {describe(got, f.data)}")

    # ---- operations: data ----

    def do_create(self, op):
        p, flags = op["path"], op.get("flags", os.O_RDWR)
        if self.exists(p):
            return
        want = 0 if self.parent_ok(p) else E.ENOENT
        if want == 0 and os.path.dirname(p) in self.ro_dirs:
            want = E.EACCES
        t0 = time.time_ns()
        h = self.expect("create", op, want, lambda: self.lop("create", p, "", lambda: self.fs.create(p, flags, op.get("mode", 0o644), op.get("umask", 0o22)), fuse.Handle(0, 0, 0)))
        if not h:
            return
        f = File()
        f.links = {p}
        f.mode = op.get("mode", 0o644) & ~op.get("umask", 0o22)
        f.mtime_min = t0 - 1_000_000_000              # the backing file system's clock may be behind under load
        self.files[p] = f
        try:
            st = os.lstat(self.fs.root + p)
            f.ino = st.st_ino
            if not S.S_ISREG(st.st_mode):
                self.bad("ns.create", f"{p} is not a regular file on the backing file system")
        except FileNotFoundError:
            self.bad("ns.create", f"{p} was created but is not on the backing file system")
        self.handles[op["h"]] = [f, h, flags, p]

    def do_open(self, op):
        p, flags = op["path"], op.get("flags", os.O_RDWR)
        if p not in self.files:
            return
        f = self.files[p]
        t0 = time.time_ns()
        h = self.expect("open", op, 0, lambda: self.lop("open", p, "", lambda: self.fs.open(p, flags), fuse.Handle(0, 0, 0)))
        if not h:
            return
        if flags & os.O_TRUNC:
            self.note("open.trunc", bool(f.data), f.touched, flags & 3)
            self.resized(f, len(f.data), 0)
            f.cut = True
            if f.data:
                del f.data[:]
            f.mtime_min = t0 - 20_000_000
            self.changed(f)
        self.handles[op["h"]] = [f, h, flags, p]

    def do_release(self, op):
        if op["h"] not in self.handles:
            return
        f, h, flags, p = self.handles.pop(op["h"])
        self.expect("release", op, 0, lambda: (self.fs.close_handle(h), True)[1])
        if p is None:
            if not any(x[3] is None and x[0] is f and x[1].node == h.node for x in self.handles.values()):
                left = self.hidden_names(f)
                if not self.ro_dirs and left != f.hidden - 1:
                    self.soft("ns.hidden", f"after {op}, {left} hidden names of the file remain, expected {f.hidden - 1}")
                self.orphan |= left > f.hidden - 1     # a folder that is read-only keeps the name and so the file
                f.hidden = left
                self.seen_hidden.discard((f.serial, h.node))
                self.note("hidden.released", f.nlink())

    def do_write(self, op):
        if op["h"] not in self.handles:
            return
        f, h, flags, p = self.handles[op["h"]]
        if flags & 3 == os.O_RDONLY:
            return
        off, n = op["off"], op["n"]
        if flags & os.O_APPEND:
            off = len(f.data)
        data = pattern(op["seed"], n)
        size = len(f.data)
        bs = self.bs
        t0 = time.time_ns()
        r = self.expect("write", op, 0, lambda: self.lop("write", p or HIDDEN, "", lambda: self.fs.write(h, off, data), n,
                                                            (f, off, data)))
        if r is None:
            return
        if r != n:
            self.bad("errno.write", f"{op} wrote {r} of {n} bytes")
        size = len(f.data)
        if off > size:
            f.data += bytes(off - size)
            f.may.update(range(size // bs, -(-off // bs)))
        f.data[off:off + n] = data
        f.must.update(range(off // bs, -(-(off + n) // bs)))
        f.mtime_min = t0 - 20_000_000
        self.changed(f)
        self.note("write", (off > size) - (off < size), off % bs == 0, (off + n) % bs == 0, min(n // bs, 3),
                  (off + n > size), len(f.disk) > 0)

    def do_read(self, op):
        if op["h"] not in self.handles:
            return
        f, h, flags, p = self.handles[op["h"]]
        if flags & 3 == os.O_WRONLY:
            return
        got = self.expect("read", op, 0, lambda: self.lop("read", p or HIDDEN, "", lambda: self.fs.read(h, op["off"], op["n"]), True))
        if got is None or got is True:
            return
        want = bytes(f.data[op["off"]:op["off"] + op["n"]])
        self.compared += 1
        self.bytes_compared += len(want)
        if got != want:
            self.bad("data.read", f"{op} of {self.name_of(f)} (size {len(f.data)}) returned {describe(got, want)}")
        bs, off, n, size = self.bs, op["off"], op["n"], len(f.data)
        self.note("read", off % bs == 0, (off + n) % bs == 0, min(n // bs, 3), (off + n > size) + (off >= size),
                  f.touched, len(f.disk) > 0)

    def content(self, path=None, h=None):
        """The whole content through the mount, and the size a client is told; None when a fault came in between."""
        if h is not None:
            size = self.fs.fstat(h[0]).size
            return self.fs.read_all(h[0], size, lambda call: self.lop("read", h[1] or HIDDEN, "", call, b"")), size
        fired = self.fired
        x = self.lop("open", path, "", lambda: self.fs.open(path, os.O_RDONLY), None)
        if self.fired != fired:
            if x:
                self.fs.close_handle(x)
            return None
        out = None
        try:
            size = self.fs.fstat(x).size
            got = self.fs.read_all(x, size, lambda call: self.lop("read", path, "", call, b""))
            if self.fired == fired:
                out = got, size
                self.seek(x, path, got)
        finally:
            if self.fs.alive() and not self.dying:
                self.fs.close_handle(x)
        return out

    def seek(self, h, path, data):
        """Where data and holes are: like the kernel, nobody asks again once the answer was that it is not implemented."""
        for whence, name in () if self.no_lseek else ((3, "SEEK_DATA"), (4, "SEEK_HOLE")):
            off = self.compared * 7919 % (len(data) + 2) if self.compared % 3 else 0
            what = f"{path} of {len(data)} bytes: lseek ({off}, {name})"
            try:
                pos = self.fs.lseek(h, off, whence)
            except fuse.FuseError as e:
                if e.errno == E.ENOSYS:
                    self.no_lseek = True
                    return
                if e.errno != E.ENXIO or data[off:].strip(b"\0") or off < len(data) and whence == 4:
                    self.bad("data.seek", f"{what} failed: {e}")
                continue
            if not off <= pos <= len(data) or whence == 3 and (pos == len(data) or data[off:pos].strip(b"\0")) or whence == 4 and data[pos:pos + 1].strip(b"\0"):
                self.bad("data.seek", f"{what} gave {pos}")

    def check_content(self, f, kind, why=""):
        path = sorted(f.links)[0] if f.links and f.mode & 0o400 else None
        if path:
            self.seen.add(path)
        h = None
        if path is None:
            for x in self.handles.values():
                if x[0] is f and x[2] & 3 != os.O_WRONLY:
                    h = x[1], x[3]
                    break
            else:
                return
        try:
            r = self.content(path, h)
        except fuse.FuseError as e:
            self.bad(kind, f"{self.name_of(f)} could not be read {why}: {e}")
        if r is None:
            return
        got, size = r
        self.compared += 1
        self.bytes_compared += len(f.data)
        if got != bytes(f.data):
            self.bad(kind, f"{self.name_of(f)} reads {why} as {describe(got, f.data)} (size given: {size})")
        if size != len(f.data):
            self.bad(kind, f"{self.name_of(f)} has size {size} {why}, expected {len(f.data)}")

    def do_readall(self, op):
        f = self.files.get(op["path"])
        if f is None:
            return
        self.check_content_path(op["path"], f, "data.readall", "")

    def check_content_path(self, path, f, kind, why):
        try:
            r = self.content(path)
        except fuse.FuseError as e:
            self.bad(kind, f"{path} could not be read {why}: {e}")
        if r is None:
            return
        got, size = r
        self.compared += 1
        self.bytes_compared += len(f.data)
        if got != bytes(f.data):
            self.bad(kind, f"{path} reads {why} as {describe(got, f.data)} (size given: {size})")

    def do_fsync(self, op):
        if op["h"] not in self.handles:
            return
        f, h, flags, p = self.handles[op["h"]]
        r = self.expect("fsync", op, 0, lambda: self.lop("fsync", p or HIDDEN, "", lambda: (self.fs.fsync(h, op.get("data", False)), True)[1]))
        if not r:
            return
        self.note("fsync", op.get("data", False), f.touched, (len(f.data) > len(f.disk)) - (len(f.data) < len(f.disk)),
                  len(f.links) > 1, p is None)
        self.synced(f)
        if self.faults is not None:
            self.faults.synced(self.fs.root + (p or HIDDEN))
        self.check_disk_exact(f, "disk.fsync", f"after {op}")
        if self.dying:
            return
        if not op.get("data", False) and f.nlink() and self.speaks("attr.mtime.fsync"):
            try:
                seen = self.fs.fstat(h).mtime
                real = os.stat(self.real(f)).st_mtime_ns
            except (OSError, TypeError):
                return
            self.compared += 1
            if abs(seen - real) > 1000:
                self.bad("attr.mtime.fsync", f"{self.name_of(f)}: after {op} the backing file's modification time is "
                                             f"{real}, while clients are told {seen}")
            f.meta_dirty = False

    def _truncate(self, f, n, t0):
        size = len(f.data)
        self.note("truncate", (n > size) - (n < size), n % self.bs == 0, n == 0, f.touched, len(f.disk) > 0)
        self.resized(f, size, n)
        f.cut = True
        if n < size:
            del f.data[n:]
        else:
            f.data += bytes(n - size)
        if n != size:
            f.mtime_min = t0 - 20_000_000
        self.changed(f)

    def do_truncate(self, op):
        f = self.files.get(op["path"])
        if f is None:
            return
        t0 = time.time_ns()
        a = self.expect("truncate", op, 0, lambda: self.lop("truncate", op["path"], "", lambda: self.fs.truncate(op["path"], op["size"])))
        if a:
            self._truncate(f, op["size"], t0)
            if a is not True and not self.losing and a.size != op["size"]:
                self.bad("attr.size", f"{op} answered with size {a.size}")

    def do_ftruncate(self, op):
        if op["h"] not in self.handles:
            return
        f, h, flags, p = self.handles[op["h"]]
        if flags & 3 == os.O_RDONLY:
            return
        t0 = time.time_ns()
        a = self.expect("truncate", op, 0, lambda: self.lop("truncate", p or HIDDEN, "", lambda: self.fs.ftruncate(h, op["size"])))
        if a:
            self._truncate(f, op["size"], t0)
            if a is not True and not self.losing and a.size != op["size"]:
                self.bad("attr.size", f"{op} answered with size {a.size}")

    # ---- attributes ----

    def check_attr(self, f, a, what, hidden=0):
        """`hidden`: the handle's name was removed while open; libfuse then counts one link less itself."""
        self.compared += 1
        if not S.S_ISREG(a.mode):
            self.soft("attr.type", f"{what}: mode {a.mode:o}")
        if a.size != len(f.data):
            self.soft("attr.size", f"{what}: size {a.size}, expected {len(f.data)}")
        if a.nlink != f.nlink() - hidden:
            self.soft("attr.nlink", f"{what}: {a.nlink} links, expected {f.nlink() - hidden}")
        if S.S_IMODE(a.mode) != f.mode:
            self.soft("attr.mode", f"{what}: permissions {S.S_IMODE(a.mode):o}, expected {f.mode:o}")
        if f.links:
            st = os.lstat(self.fs.root + sorted(f.links)[0])
            if (a.uid, a.gid) != (st.st_uid, st.st_gid):
                self.soft("attr.owner", f"{what}: owner {a.uid}:{a.gid}, {st.st_uid}:{st.st_gid} on the backing file system")
        up = lambda n, k: (n + k - 1) // k * k      # whole cache blocks in sectors, or what the disk gives the file
        if f.touched and not len(f.data) <= a.blocks * 512 <= max(up(up(len(f.data), self.bs), 512), up(len(f.data), 4096)):
            self.soft("attr.blocks", f"{what}: {a.blocks} sectors for {a.size} bytes")
        if f.mtime is not None:
            if a.mtime != f.mtime:
                self.soft("attr.mtime", f"{what}: modification time {a.mtime}, expected {f.mtime}")
        elif f.mtime_min and a.mtime < f.mtime_min:
            self.soft("attr.mtime", f"{what}: modification time {a.mtime} is before the last change (at {f.mtime_min})")
        elif a.mtime > time.time_ns() + 20_000_000:
            self.soft("attr.mtime", f"{what}: modification time {a.mtime} lies in the future")
        else:
            f.mtime = a.mtime

    def check_plain(self, p, a, what):
        """Folders and symbolic links have the attributes they have on the backing file system."""
        self.compared += 1
        st = os.lstat(self.fs.root + p)
        got = (oct(a.mode), a.uid, a.gid, a.nlink, a.size, a.mtime)
        want = (oct(st.st_mode), st.st_uid, st.st_gid, st.st_nlink, st.st_size, st.st_mtime_ns)
        if got != want:
            self.soft("attr.plain", f"{what}: mode, owner, group, links, size and mtime {got}, on the backing file system {want}")

    def do_stat(self, op):
        p = op["path"]
        if p in self.syms:
            a = self.expect("stat", op, 0, lambda: self.fs.stat(p))
            if a and not S.S_ISLNK(a.mode):
                self.bad("attr.type", f"{op}: mode {a.mode:o}")
            if a:
                self.check_plain(p, a, str(op))
        elif p in self.dirs:
            a = self.expect("stat", op, 0, lambda: self.fs.stat(p))
            if a and not S.S_ISDIR(a.mode):
                self.bad("attr.type", f"{op}: mode {a.mode:o}")
            if a:
                self.check_plain(p, a, str(op))
        elif p in self.files:
            a = self.expect("stat", op, 0, lambda: self.fs.stat(p))
            if a:
                self.check_attr(self.files[p], a, str(op))
        else:
            self.expect("stat", op, (E.ENOENT, E.ENOTDIR), lambda: self.fs.stat(p))

    def do_fstat(self, op):
        if op["h"] not in self.handles:
            return
        f, h, flags, p = self.handles[op["h"]]
        a = self.expect("stat", op, 0, lambda: self.fs.fstat(h))
        if a:
            self.check_attr(f, a, str(op), 1 if p is None else 0)

    def do_chmod(self, op):
        p = op["path"]
        if p not in self.files and p not in self.dirs or p in self.ro_dirs:
            return
        a = self.expect("chmod", op, 0, lambda: self.fs.chmod(p, op["mode"]))
        if a:
            if p in self.files:
                self.files[p].mode = op["mode"]
                self.check_attr(self.files[p], a, f"answer to {op}")
            else:
                self.check_plain(p, a, f"answer to {op}")
            if S.S_IMODE(os.stat(self.fs.root + p).st_mode) != op["mode"]:
                self.bad("ns.chmod", f"{op} is not on the backing file system")

    def do_chown(self, op):
        p = op["path"]
        if p not in self.files and p not in self.dirs and p not in self.syms:
            return
        before = os.lstat(self.fs.root + p)
        me = fuse.SANDBOX_UID if os.getuid() == 0 else os.getuid()
        if before.st_uid != me:
            return
        uid = {None: None, "own": me, "other": me + 7}[op["uid"]]
        gid = {None: None, "own": before.st_gid, "group": me + (before.st_gid == me), "other": me + 8}[op["gid"]]
        if op["gid"] == "group" and os.getuid() != 0:
            return
        want = E.EPERM if "other" in (op["uid"], op["gid"]) else 0
        a = self.expect("chown", op, want, lambda: self.fs.chown(p, uid, gid))
        st = os.lstat(self.fs.root + p)
        self.note("chown", op["uid"], op["gid"], p in self.files, p in self.syms)
        if (st.st_uid, st.st_gid) != (me, gid if want == 0 and gid is not None else before.st_gid):
            self.bad("ns.chown", f"{op}: {before.st_uid}:{before.st_gid} became {st.st_uid}:{st.st_gid} on the backing file system")
        if a and p in self.files:
            self.check_attr(self.files[p], a, f"answer to {op}")
        elif a:
            self.check_plain(p, a, f"answer to {op}")

    def do_utimens(self, op):
        p = op["path"]
        at, mt = op["atime"], op["mtime"]
        if p in self.dirs or p in self.syms:
            a = self.expect("utimens", op, 0, lambda: self.fs.utimes(p, at, mt))
            if a:
                self.check_plain(p, a, f"answer to {op}")
                if isinstance(mt, int) and a.mtime != mt or isinstance(at, int) and a.atime != at:
                    self.bad("attr.mtime", f"{op}: times {a.atime} and {a.mtime} afterwards")
            return
        if p not in self.files:
            return
        f = self.files[p]
        h = next((x[1] for x in self.handles.values() if x[3] == p), None) if op.get("handle") else None
        before = self.expect("stat", op, 0, lambda: self.fs.stat(p))
        t0 = time.time_ns()
        if not before or not self.expect("utimens", op, 0, lambda: self.fs.utimes(p, at, mt, h)):
            return
        if mt == "now":
            f.mtime_min = t0 - 1_000_000_000              # the backing file system's clock may be behind under load
            f.mtime = None
        elif mt is not None:
            f.mtime = mt
        self.note("utimens", f.touched, "at" if at == "now" else at is None, "mt" if mt == "now" else mt is None, h is None)
        # reads may move the access time again, so it is only compared here
        a = self.expect("stat", op, 0, lambda: self.fs.stat(p))
        if a and (a.atime != (before.atime if at is None else at) if at != "now" else a.atime < t0 - 1_000_000_000):
            self.bad("attr.atime", f"{op}: access time {a.atime} afterwards, {before.atime} before")
        if a:
            self.check_attr(f, a, f"after {op}")

    # ---- names ----

    def do_mkdir(self, op):
        p = op["path"]
        if self.exists(p) or not self.parent_ok(p):
            return
        want = E.EACCES if os.path.dirname(p) in self.ro_dirs else 0
        mode, umask = op.get("mode", 0o755), op.get("umask", 0o22)
        if self.expect("mkdir", op, want, lambda: (self.fs.mkdir(p, mode, umask), True)[1]):
            self.dirs.add(p)
            self.on_backing(p, op)
            got = S.S_IMODE(os.stat(self.fs.root + p).st_mode)
            if got & 0o5777 != mode & ~umask & 0o5777:
                self.soft("attr.mode", f"{op}: permissions {got:o}")

    def do_rmdir(self, op):
        p = op["path"]
        if p not in self.dirs or p == "/":
            return
        inner = self.children(p)
        want = 0
        if os.path.dirname(p) in self.ro_dirs:
            want = E.EACCES
        elif inner or self.hidden_in(p):
            want = (E.ENOTEMPTY, E.EEXIST)
        if self.expect("rmdir", op, want, lambda: (self.fs.rmdir(p), True)[1]):
            self.dirs.discard(p)
            self.ro_dirs.discard(p)
            self.gone(p, op)

    def hidden_in(self, p):
        try:
            return any(n.startswith(".fuse_hidden") for n in os.listdir(self.fs.root + p))
        except OSError:
            return False

    def children(self, p):
        pre = p.rstrip("/") + "/"
        names = set()
        for q in list(self.files) + list(self.syms) + list(self.dirs):
            if q.startswith(pre) and q != p:
                names.add(q[len(pre):].split("/")[0])
        return names

    def lstat(self, p):
        try:
            return os.lstat(self.fs.root + p)
        except FileNotFoundError:
            return None

    def on_backing(self, p, op):
        if not os.path.lexists(self.fs.root + p):
            self.bad("ns.backing", f"after {op}, {p} is not on the backing file system")

    def gone(self, p, op):
        if os.path.lexists(self.fs.root + p):
            self.bad("ns.backing", f"after {op}, {p} is still on the backing file system")

    def do_readonly(self, op):
        """Takes away (or gives back) the backing folder's write permission: name operations in it then fail."""
        p = op["path"]
        if p not in self.dirs:
            return
        ro = op["ro"]
        if self.expect("chmod", op, 0, lambda: self.fs.chmod(p, 0o555 if ro else 0o755)):
            (self.ro_dirs.add if ro else self.ro_dirs.discard)(p)

    def do_unlink(self, op):
        p = op["path"]
        if p not in self.files and p not in self.syms:
            return
        ro = os.path.dirname(p) in self.ro_dirs
        f = self.files.get(p)
        opened = f is not None and any(x[3] == p for x in self.handles.values())
        if opened and self.faults is not None:
            return                              # libfuse renames it instead: no unlink for a fault to act on
        if not self.expect("unlink", op, E.EACCES if ro else 0, lambda: self.lop("rename" if opened else "unlink", p, os.path.dirname(p) + HIDDEN if opened else "",
                                                                                    lambda: (self.fs.unlink(p), True)[1])):
            self.note("unlink.failed", f is not None and f.touched)
            return
        self.gone(p, op)
        if f is None:
            del self.syms[p]
            return
        self._drop_name(p, f, opened)
        self.note("unlink", opened, f.nlink(), f.touched)

    def _drop_name(self, p, f, opened):
        del self.files[p]
        f.links.discard(p)
        if opened:
            f.hidden += 1
            for x in self.handles.values():
                if x[3] == p:
                    x[3] = None
                    self.seen_hidden.add((f.serial, x[1].node))

    def do_rename(self, op):
        a, b = op["a"], op["b"]
        if a == b or a == "/" or b == "/" or not self.exists(a) or not self.parent_ok(b):
            return
        if b.startswith(a + "/") or a.startswith(b + "/"):     # the kernel itself refuses these
            return
        adir, bdir = a in self.dirs, b in self.dirs
        if self.exists(b) and adir != bdir:
            return                              # the kernel itself refuses these
        want = 0
        if os.path.dirname(a) in self.ro_dirs or os.path.dirname(b) in self.ro_dirs or (adir and a in self.ro_dirs
                                                                                         and os.path.dirname(a) != os.path.dirname(b)):
            want = (E.EACCES, E.ENOTEMPTY, E.EEXIST)
        elif bdir and (self.children(b) or self.hidden_in(b)):
            want = (E.ENOTEMPTY, E.EEXIST)
        if a in self.syms and b in self.files and False:
            return
        fa, fb = self.files.get(a), self.files.get(b)
        b_open = fb is not None and any(x[3] == b for x in self.handles.values())
        if fa is not None and fa is fb and b_open:
            return                              # libfuse hides b first, so this is no plain rename any more
        if want != 0 and (b_open or fa is not None and fa is fb):
            return
        if b_open and self.faults is not None:
            return
        flags = op.get("flags", 0)
        if flags and (b_open or flags == 1 and self.exists(b) or flags == 2 and not self.exists(b) or self.faults is not None or want):
            return                              # the kernel refuses these itself, or libfuse hides b
        if flags:
            # no plain rename: LazyFS may refuse it, but not do something else
            before = {q: (st.st_ino if (st := self.lstat(q)) else None) for q in (a, b)}
            r = self.expect("rename", op, (0, E.EINVAL, E.ENOSYS) if flags == 1 else (E.EINVAL, E.ENOSYS),
                            lambda: (self.fs.rename(a, b, flags), True)[1])
            self.note("rename.flags", flags, adir, bool(r))
            if not r:
                after = {q: (st.st_ino if (st := self.lstat(q)) else None) for q in (a, b)}
                if before != after:
                    self.bad("ns.rename", f"{op} is refused and yet the names are {after} instead of {before}")
                return
        else:
            r = self.expect("rename", op, want, lambda: self.lop("rename", a, b, lambda: (self.fs.rename(a, b), True)[1]))
        if not r:
            self.note("rename.failed", adir, fa is not None and fa.touched, fb is not None and fb.touched)
            return
        self.note("rename", adir, fb is not None, fa is not None and fa.touched, fb is not None and fb.touched,
                  fa is not None and fa is fb, b_open, fa is not None and fa.nlink() > 1,
                  fb is not None and fb.nlink() > 1)
        if fa is not None and fa is fb:
            # the same file twice: POSIX says nothing happens; libfuse moves open handles over to b
            for x in self.handles.values():
                if x[3] == a:
                    x[3] = b
            return
        self.on_backing(b, op)
        self.gone(a, op)
        if fb is not None:
            self._drop_name(b, fb, b_open)
        self.syms.pop(b, None)
        if adir:
            if bdir:
                self.ro_dirs.discard(b)
            def moved(q):
                return b + q[len(a):] if q == a or q.startswith(a + "/") else q
            self.dirs = {moved(q) for q in self.dirs}
            self.seen = {moved(q) for q in self.seen}
            self.ro_dirs = {moved(q) for q in self.ro_dirs}
            self.syms = {moved(q): t for q, t in self.syms.items()}
            self.files = {moved(q): f for q, f in self.files.items()}
            for f in self.all_files():
                f.links = {moved(q) for q in f.links}
            for x in self.handles.values():
                if x[3] is not None:
                    x[3] = moved(x[3])
        elif a in self.syms:
            self.syms[b] = self.syms.pop(a)
        else:
            del self.files[a]
            self.files[b] = fa
            fa.links.discard(a)
            fa.links.add(b)
            for x in self.handles.values():
                if x[3] == a:
                    x[3] = b

    def do_link(self, op):
        a, b = op["a"], op["b"]
        if a not in self.files or self.exists(b) or not self.parent_ok(b):
            return
        want = E.EACCES if os.path.dirname(b) in self.ro_dirs else 0
        if self.expect("link", op, want, lambda: self.lop("link", a, b, lambda: (self.fs.link(a, b), True)[1])):
            f = self.files[a]
            f.links.add(b)
            self.files[b] = f
            self.on_backing(b, op)
            self.note("link", f.touched, f.nlink())

    def do_symlink(self, op):
        p = op["path"]
        if self.exists(p) or not self.parent_ok(p):
            return
        want = E.EACCES if os.path.dirname(p) in self.ro_dirs else 0
        if self.expect("symlink", op, want, lambda: self.lop("symlink", op["target"], p, lambda: (self.fs.symlink(op["target"], p), True)[1])):
            self.syms[p] = op["target"]
            if not os.path.islink(self.fs.root + p):
                self.bad("ns.backing", f"after {op}, {p} is not a symbolic link on the backing file system")

    def do_readlink(self, op):
        p = op["path"]
        if p not in self.syms:
            return
        r = self.expect("readlink", op, 0, lambda: self.fs.readlink(p))
        if r and r != self.syms[p]:
            self.bad("ns.readlink", f"{op} returned {r!r}, expected {self.syms[p]!r}")

    def do_access(self, op):
        p = op["path"]
        if not self.exists(p):
            return
        if p in self.syms:
            return
        mask = op.get("mask", 0) if self.faults is None else 0
        mode = self.files[p].mode if p in self.files else 0o500 if p in self.ro_dirs else 0o700
        want = E.EACCES if mask & ~(mode >> 6) and os.geteuid() in (0, os.lstat(self.fs.root + p).st_uid) else 0
        self.note("access", mask, want)
        self.expect("access", op, want, lambda: self.lop("access", p, "", lambda: (self.fs.access(p, mask), True)[1]))

    def do_readdir(self, op):
        p = op["path"]
        if p not in self.dirs:
            return
        r = self.expect("readdir", op, 0, lambda: self.fs.readdir(p))
        if r is None:
            return
        names = sorted(n for n, t in r if n not in (".", "..") and not n.startswith(".fuse_hidden"))
        want = sorted(self.children(p))
        self.compared += 1
        if names != want:
            self.bad("ns.readdir", f"{op} lists {names}, expected {want}")

    def do_readdirplus(self, op):
        p = op["path"]
        if p not in self.dirs:
            return
        r = self.expect("readdir", op, 0, lambda: self.fs.readdirplus(p))
        if r is None:
            return
        got = {n: a for n, a in r if n not in (".", "..") and not n.startswith(".fuse_hidden")}
        want = self.children(p)
        self.compared += 1
        if set(got) != want:
            self.bad("ns.readdir", f"{op} lists {sorted(got)}, expected {sorted(want)}")
        for n, a in got.items():
            f = self.files.get(p.rstrip("/") + "/" + n)
            if a is not None and f is not None:
                self.check_attr(f, a, f"{op}, entry {n}")

    # ---- the whole system ----

    def lost(self):
        """All unsynced data is gone: what is on the backing file system is what clients now see."""
        for f in self.all_files():
            if self.relaxed:
                got = self.disk_bytes(f)
                if got is not None:
                    w = self.disk_ok(f, got)
                    if w:
                        self.soft("disk.relaxed", f"{self.name_of(f)}: the backing file holds {w}")
                    f.disk = got
            if bytes(f.data) != f.disk:
                self.note("lost", len(f.data) > len(f.disk), len(f.data) < len(f.disk))
            f.data = bytearray(f.disk)
            f.hist = []
            f.touched = False
            self.clean(f)
            f.mtime_min = 0
            f.mtime = None

    def do_clear(self, op):
        dirty = sum(1 for f in self.all_files() if bytes(f.data) != f.disk)
        self.fs.clear_cache()
        n = self.fs.completions()
        if self.fs.done_fifo and n != 1:
            self.soft("notify", f"{n} completion messages for one clear-cache command")
        self.note("clear", min(dirty, 3), min(len(self.handles), 3))
        self.cleared = not op.get("verify", True)
        self.seen.clear()
        self.seen_hidden.clear()
        self.lost()
        if op.get("verify", True):
            self.verify("clear.content", "after clear-cache")

    def do_checkpoint(self, op):
        dirty = [f for f in self.all_files() if bytes(f.data) != f.disk]
        self.fs.checkpoint()
        self.note("checkpoint", min(len(dirty), 3), any(not f.links for f in dirty))
        for f in self.all_files():
            if not f.mode & 0o200:
                got = self.disk_bytes(f)
                if got != bytes(f.data):
                    # lazyfs, run by an ordinary user, has no descriptor to write it with
                    self.note("unwritable", f.mode)
                    if self.speaks("unwritable"):
                        self.soft("unwritable.checkpoint", f"{self.name_of(f)} with permissions {f.mode:o} is not persisted by cache-checkpoint")
                    continue
            unnamed = (bytes(f.data) != f.disk and not (f.links & self.seen)
                       and not any(n == f.serial for n, _ in self.seen_hidden))
            self.synced(f)
            try:
                self.check_disk_exact(f, "unnamed.checkpoint" if unnamed else "disk.checkpoint", "after cache-checkpoint"
                                      + (", where lazyfs had been told none of its remaining names" if unnamed else ""))
            except Foreign:
                pass

    def do_crash(self, op):
        """LazyFS is killed, or it is unmounted or told to end, which is no sync either."""
        how = op.get("how", "kill")
        if how == "kill":
            self.fs.kill()
        else:
            self.fs.stop(None if how == "unmount" else getattr(signal, how))
        self.handles.clear()
        self.drop_unlinked()
        self.lost()
        self.seen.clear()
        self.seen_hidden.clear()
        self.note("crash", how)
        self.cleared = not op.get("verify", True)
        if self.faults is not None:
            self.faults.restarted()
        self.start()
        if op.get("verify", True):
            self.verify("crash.content", f"after {'a crash' if how == 'kill' else 'an unmount' if how == 'unmount' else how} and restart")

    def drop_unlinked(self):
        for f in list(self.files.values()):
            f.hidden = 0
        for d in self.dirs:
            try:
                names = os.listdir(self.fs.root + d)
            except OSError:
                continue
            for n in names:
                if n.startswith(".fuse_hidden"):
                    os.unlink(f"{self.fs.root}{d}/{n}")

    def verify(self, kind, why):
        """Every file, as clients see it, and on the backing file system."""
        for f in self.all_files():
            try:
                self.check_content(f, kind, why)
            except Foreign:
                pass
            if self.dying:
                return
            if self.losing:
                self.losing = False
                self.lost()

    def do_verify(self, op):
        self.verify("data.verify", "")
        if not self.dying:
            self.do_lazy(op)

    def do_lazy(self, op):
        for f in self.all_files():
            try:
                self.check_disk(f, "lazy", "although nothing was synced")
            except Foreign:
                pass

    def do_fault(self, op):
        """A fault command."""
        text = op["text"].replace("@ROOT@", self.fs.root)
        self.fs.command(text)
        self.faults.command(dict(op, text=text))

    def do_pipe(self, op):
        """Several lines on the command pipe; what each does is in the operation."""
        data = b"".join(l["t"].replace("@ROOT@", self.fs.root).encode("latin-1") + b"\n" for l in op["lines"])
        r = random.Random(op["cutseed"])
        n = len(data)
        if op["how"] == "one":
            cuts = []
        elif op["how"] == "lines":
            cuts = [i + 1 for i in range(n) if data[i] == 10]
        elif op["how"] == "bytes":
            a = r.randrange(n)
            cuts = range(a, min(n, a + 200))
        else:
            cuts = sorted(r.randrange(n) for _ in range(3 if op["how"] == "cuts" else 30))
        edges = sorted({0, n, *cuts})
        with open(self.fs.log_path, "rb") as f:
            start = f.seek(0, 2)
        for a, b in zip(edges, edges[1:]):
            self.fs.pipe(data[a:b])
            if r.random() < 0.3:
                time.sleep(r.choice((0, 0.0002, 0.001)))
        self.fs.pipe_done()
        with open(self.fs.log_path, "rb") as f:
            f.seek(start)
            log = f.read()
        clears = 0
        for l in op["lines"]:
            if l["k"] == "clear":
                clears += 1
                self.seen.clear()
                self.seen_hidden.clear()
                self.lost()
            elif l["k"] == "checkpoint":
                for f in self.all_files():
                    if bytes(f.data) == f.disk or f.links & self.seen or any(k == f.serial for k, _ in self.seen_hidden):
                        self.synced(f)
                    else:
                        raise Inconclusive("an unnamed file at a checkpoint")
            elif l["k"] == "fault":
                self.faults.command(dict(l["fault"], text=l["t"]))
        got = self.fs.completions()
        if got != clears:
            self.soft("pipe.notify", f"{got} completion messages for {clears} clear-cache commands in {op['lines']}")
        if self.fs.done_rest:
            self.soft("pipe.notify", f"{self.fs.done_rest!r} on the completion pipe")
        for kind, rx in (("usage", rb"cache usage [^\n]* is [0-9]"), ("report", rb"total number of bytes un-fsynced|all data blocks are synced")):
            want, n = sum(l["k"] == kind for l in op["lines"]), len(re.findall(rx, log))
            if n != want:
                self.soft("pipe.count", f"{n} outputs for {want} {kind} commands in {op['lines']}")
        for f in self.all_files():
            self.check_disk(f, "pipe.disk", f"after {op}")
        try:
            self.verify("pipe.content", f"after {op}")
        except PredictedDeath:
            self.dying = True
        self.note("pipe", op["how"], min(len(op["lines"]), 9))
        for l in op["lines"]:
            self.note("line", l["k"], l.get("f"))

    def do_cmd(self, op):
        self.fs.command(op["text"])

    # ---- what the log says ----

    def logged(self, command):
        """The lines one command added to the log."""
        with open(self.fs.log_path, "rb") as f:
            f.seek(0, 2)
            start = f.tell()
            self.fs.command(command)
            f.seek(start)
            return f.read().decode(errors="replace").split("\n")

    def do_report(self, op):
        lines = self.logged("lazyfs::unsynced-data-report")
        groups, total, synced, cur = {}, None, False, None
        for l in lines:
            m = re.search(r"\[inode ([^\]]*)\] info: \(block (\d+)\) to \(block (\d+)\) \[byte index (-?\d+) to index (-?\d+)\]", l)
            if m:
                groups.setdefault(m[1], ([], []))[0].append(tuple(map(int, m.groups()[1:])))
            m = re.search(r"\[inode ([^\]]*)\] => file: '(.*)'", l)
            if m:
                groups.setdefault(m[1], ([], []))[1].append(m[2])
            m = re.search(r"total number of bytes un-fsynced: (\d+)", l)
            if m:
                total = int(m[1])
            synced |= "all data blocks are synced" in l
        self.compared += 1
        files = self.all_files()
        named, bytes_want = set(), 0
        for ino, (ranges, names) in groups.items():
            here = [f for f in files if {self.fs.root + p for p in f.links} & set(names)]
            if not here:
                here = [f for f in files if f.hidden and any(".fuse_hidden" in n for n in names) and str(f.ino) == ino]
            if len(here) != 1:
                self.bad("report.file", f"{op}: {names} are reported with blocks {ranges}; these are no names of one file")
            f = here[0]
            if f.serial in named:
                self.bad("report.file", f"{op}: {names} are reported twice")
            named.add(f.serial)
            wrong = [n for n in names if n not in {self.fs.root + p for p in f.links} and ".fuse_hidden" not in n]
            if wrong:
                self.bad("report.file", f"{op}: {wrong} are reported as names of {self.name_of(f)}")
            missing = [p for p in f.links & self.seen if self.fs.root + p not in names]
            got = set()
            for a, b, lo, hi in ranges:
                new = set(range(a, b + 1))
                if got & new or not new:
                    self.bad("report.blocks", f"{op}: {names}: blocks {ranges} overlap")
                got |= new
                want = min((b + 1) * self.bs, len(f.data)) - a * self.bs - 1
                if lo != 0 or hi != want:
                    self.bad("report.bytes", f"{op}: {names}: bytes {lo} to {hi} for blocks {a} to {b} of {len(f.data)} bytes")
                bytes_want += hi + 1
            if not got <= f.must | f.may:
                self.bad("report.blocks", f"{op}: {names}: blocks {sorted(got - f.must - f.may)} are reported and were not written since "
                                          f"the last sync")
            if not self.relaxed and not f.must <= got:
                self.bad("report.blocks", f"{op}: {names}: blocks {sorted(f.must - got)} were written since the last sync and are not reported")
        if not self.relaxed:
            for f in files:
                if f.must and f.serial not in named and (f.links & self.seen):
                    self.bad("report.file", f"{op}: {self.name_of(f)} has unsynced blocks {sorted(f.must)} and is not reported")
        if groups and total != bytes_want:
            self.bad("report.bytes", f"{op}: {total} bytes in total, the reported blocks have {bytes_want}")
        pending = [f for f in files if f.must and not self.relaxed]
        quiet = not any(f.must or f.may or f.cut for f in files)
        if pending and synced:
            self.bad("report.synced", f"{op}: all is said to be synced, though {self.name_of(pending[0])} has unsynced blocks {sorted(pending[0].must)}")
        if quiet and not synced:
            self.bad("report.synced", f"{op}: nothing is pending and not all is said to be synced: {lines}")
        if synced and groups:
            self.bad("report.synced", f"{op}: all is said to be synced and yet {groups}")
        self.note("report", min(len(groups), 4), min(sum(len(r) for r, n in groups.values()), 5), synced)

    def do_usage(self, op):
        lines = self.logged("lazyfs::display-cache-usage")
        m = re.search(r"cache usage[^:]* is ([0-9.e+-]+)%", "\n".join(lines))
        self.compared += 1
        if not m:
            self.bad("usage", f"{op}: no usage in {lines}")
        bs, ps, n = self.cfg["manual"]
        pages = float(m[1]) * n / 100
        if abs(pages - round(pages)) > 1e-4 * n:
            self.bad("usage", f"{op}: {m[1]} % is no whole number of the {n} pages")
        pages = round(pages)
        bpp = ps // bs
        files = self.all_files()
        low = 0 if self.relaxed else sum(-(-len(f.must) // bpp) for f in files)
        if self.orphan:
            high = n
        elif self.cleared:
            high = 0
        else:
            high = min(n, sum(-(-len(f.data) // bs) for f in files))
        if not low <= pages <= high:
            self.bad("usage", f"{op}: {pages} pages are in use; the cached data needs {low} to {high}")
        self.note("usage", min(pages, 20), pages == low, pages == high)

    # ---- resources ----

    def do_fds(self, op):
        """LazyFS holds one descriptor per descriptor of a client and no other on the backing files."""
        root = self.fs.root + "/"
        for k in range(40):
            try:
                got = [x for x in self.fdreader(self.fs.proc.pid) if x.startswith(root) or x == self.fs.root]
            except OSError as e:
                raise Inconclusive(f"descriptors cannot be read: {e}")
            if len(got) == len(self.handles):
                break
            time.sleep(0.001 * k)       # an answer may be sent before the descriptor is closed
        self.compared += 1
        if len(got) != len(self.handles):
            want = sorted(str(x[3]) for x in self.handles.values())
            self.bad("fds", f"{op}: lazyfs has {len(got)} descriptors on backing files, clients have {len(self.handles)}: "
                            f"{sorted(g[len(root) - 1:] for g in got)[:20]} for {want[:20]}")
        self.note("fds", len(got))

    def do_drain(self, op):
        """Gives everything back, in one of several ways, and then uses the whole cache."""
        how = op["how"]
        for d in list(self.ro_dirs):
            self.do_readonly({"op": "readonly", "path": d, "ro": False})
        if how in ("unlink", "rename"):
            for k in list(self.handles):
                self.do_release({"op": "release", "h": k})
        if self.orphan and how != "clear":
            return
        if how in ("unlink", "rename"):
            last = None
            for p in sorted(self.files):
                if how == "rename" and last and self.files[last] is not self.files[p]:
                    self.do_rename({"op": "rename", "a": p, "b": last})
                else:
                    if last:
                        self.do_unlink({"op": "unlink", "path": last})
                    last = p
            if last in self.files:
                self.do_unlink({"op": "unlink", "path": last})
            if self.files:
                raise Inconclusive("not everything could be removed")
        elif how == "truncate":
            for p in sorted(self.files):
                self.do_truncate({"op": "truncate", "path": p, "size": 0})
            for k in sorted(self.handles):
                if self.handles[k][3] is None and self.handles[k][2] & 3 != os.O_RDONLY:
                    self.do_ftruncate({"op": "ftruncate", "h": k, "size": 0})
            if any(f.data for f in self.all_files()):
                how = "clear"
        if how == "clear":
            self.do_clear({"op": "clear", "verify": False})
        self.cleared = True
        self.do_usage({"op": "usage", "after": how})
        bs, ps, n = self.cfg["manual"]
        fit = min((n - 1) * (ps // bs) + 1, 400)
        if "/" in self.ro_dirs or self.exists("/full"):
            return
        h = self.fs.create("/full", os.O_RDWR)
        try:
            for b in range(fit):
                self.fs.write(h, b * bs, pattern(op["seed"] + b, bs))
            self.compared += fit
            with open(self.fs.root + "/full", "rb") as f:
                got = f.read()
            if got.strip(b"\0"):
                self.bad("pages", f"{op}: {fit} blocks must fit into the empty cache of {n} pages; {len(got)} bytes are on the backing file")
            for b in (0, fit // 2, fit - 1):
                if self.fs.read(h, b * bs, bs) != pattern(op["seed"] + b, bs):
                    self.bad("pages", f"{op}: block {b} of the file that fills the cache reads wrong")
        finally:
            if self.fs.alive():
                self.fs.close_handle(h)
                self.fs.unlink("/full")
        self.cleared = True
        if how != "truncate":
            self.do_usage({"op": "usage", "after": "full"})
        self.note("drain", how, min(n, 20), ps // bs)

    # ---- a digest of the model, to count distinct histories ----

    def digest(self):
        h = hashlib.sha1()
        for p in sorted(self.files):
            f = self.files[p]
            h.update(f"{p}:{len(f.data)}:{len(f.disk)}:{f.nlink()}:{f.touched}\n".encode())
            h.update(hashlib.sha1(bytes(f.data)).digest())
        h.update(repr(sorted(self.dirs)).encode())
        return h.hexdigest()
