"""Random operations, chosen by looking at the model so that most of them do something."""

import os

DEFAULT = {
    "create": 6, "open": 8, "release": 6, "write": 34, "read": 22, "fsync": 5, "truncate": 4, "ftruncate": 4,
    "stat": 6, "fstat": 2, "readall": 4, "unlink": 2, "rename": 3, "link": 2, "mkdir": 1, "rmdir": 0.5,
    "symlink": 0.5, "readlink": 0.3, "readdir": 1, "access": 0.5, "chmod": 0.5, "chown": 0.3, "utimens": 0.5, "readonly": 0, "readdirplus": 0.7,
    "clear": 0, "checkpoint": 0, "crash": 0, "lazy": 0, "report": 0, "usage": 0, "clearquiet": 0, "fds": 0, "drain": 0, "renamedir": 0.7,
}


class Gen:
    def __init__(self, rng, session, weights=None, max_blocks=12, max_files=6, max_handles=7, max_write=None, no_trunc=False, guarded=False):
        self.r, self.s = rng, session
        self.guarded = guarded                    # files come and go with permissions that deny their owner things
        w = dict(DEFAULT)
        w.update(weights or {})
        w = {k: v for k, v in w.items() if v > 0}
        self.names, self.weights = list(w), list(w.values())
        self.maxb = max_blocks
        self.bs = min(session.bs, 65536)          # what offsets and lengths are counted in
        self.max_files, self.max_handles = max_files, max_handles
        self.nh = 0
        self.max_write = max_write
        self.no_trunc = no_trunc
        self.seed = rng.randrange(1 << 40)
        # names that start with, contain or look like other names, of files and of folders
        rest = ["b", "c", "d", "e", "ab", "a.b", "aa", "p1", "pp", "qa", "q.", "r ", "p,q", "ba", ".p", "p'q", "\u00e9", "..p"]
        rng.shuffle(rest)
        self.pool = (["a"] + rest)[:self.max_files + 2]

    # ---- pieces ----

    def offset(self, size):
        r, bs = self.r, self.bs
        k = r.random()
        top = self.maxb * bs
        if k < 0.2:
            o = r.randrange(self.maxb) * bs
        elif k < 0.35:
            o = r.randrange(1, self.maxb + 1) * bs + r.choice((-1, 1, -2, 7))
        elif k < 0.5:
            o = size
        elif k < 0.62:
            o = size + r.choice((-1, 1, 5, bs - 1, bs, bs + 1, 2 * bs, 3 * bs + 17))
        elif k < 0.72:
            o = 0
        elif k < 0.85 and size:
            o = r.randrange(size)
        else:
            o = r.randrange(top)
        return max(0, min(o, top))

    def length(self):
        r, bs = self.r, self.bs
        k = r.random()
        if k < 0.2:
            n = r.randrange(1, 4) * bs
        elif k < 0.35:
            n = r.randrange(1, 4) * bs + r.choice((-1, 1, 3))
        elif k < 0.6:
            n = r.randrange(1, bs + 1)
        elif k < 0.75:
            n = r.randrange(1, 40)
        elif k < 0.95:
            n = r.randrange(1, 3 * bs)
        else:
            n = r.randrange(1, self.maxb * bs)
        n = max(1, min(n, 128 * 1024))
        if self.max_write:
            n = min(n, self.max_write)
        return n

    def path(self, new=False):
        r, s = self.r, self.s
        dirs = sorted(s.dirs)
        d = r.choice(dirs)
        if d.count("/") > 3:
            d = "/"
        return (d.rstrip("/") + "/" + r.choice(self.pool)) if new else None

    def file(self):
        fs = sorted(self.s.files)
        return self.r.choice(fs) if fs else None

    def handle(self, avoid=None):
        hs = [k for k, x in self.s.handles.items() if avoid is None or x[2] & 3 != avoid]
        return self.r.choice(hs) if hs else None

    def next_seed(self):
        self.seed += 1
        return self.seed

    # ---- one operation ----

    def next(self):
        for _ in range(200):
            k = self.r.choices(self.names, self.weights)[0]
            op = getattr(self, "g_" + k)()
            if op and self.guarded:
                op = self.allowed(op)
            if op:
                return op
        return {"op": "readdir", "path": "/"}

    def allowed(self, op):
        """None if the permissions forbid the operation, or if LazyFS has no descriptor to do it with."""
        r, s, k = self.r, self.s, op["op"]
        if k == "create":
            return dict(op, mode=r.choice((0o444, 0o444, 0o400, 0o555, 0o200, 0, 0o644)))
        if k == "chmod":
            if op["path"] in s.files:
                op["mode"] = r.choice((0o444, 0o400, 0o200, 0, 0o644, 0o755))
            return op
        f, access = s.files.get(op.get("path")), None
        if "h" in op and k != "open":
            if op["h"] not in s.handles:
                return None
            f, _, access, _ = s.handles[op["h"]]
            access &= 3
        if f is None:
            return op
        may_read, may_write = f.mode & 0o400, f.mode & 0o200
        if k == "open":
            fl = op["flags"]
            if fl & 3 != os.O_WRONLY and not may_read or (fl & 3 != os.O_RDONLY or fl & os.O_TRUNC) and not may_write:
                return None
        elif k in ("write", "ftruncate", "grow") and access == os.O_WRONLY and not may_read:
            return None
        elif k == "fsync" and access == os.O_RDONLY and not may_write:
            return None
        elif k == "truncate" and not (may_read and may_write):
            return None
        elif k == "readall" and not may_read:
            return None
        return op

    def run(self, n):
        for _ in range(n):
            self.s.apply(self.next())

    def g_create(self):
        s = self.s
        if len(s.files) >= self.max_files or len(s.handles) >= self.max_handles:
            return None
        p = self.path(new=True)
        if s.exists(p):
            return None
        self.nh += 1
        fl = self.r.choice((os.O_RDWR, os.O_RDWR, os.O_RDWR, os.O_WRONLY, os.O_RDWR | os.O_TRUNC, os.O_RDWR | os.O_APPEND, os.O_RDWR | os.O_EXCL,
                            os.O_RDONLY if self.r.random() < 0.3 else os.O_RDWR))
        op = {"op": "create", "path": p, "h": f"h{self.nh}", "flags": fl | os.O_CREAT}
        if self.r.random() < 0.4:
            op.update(mode=self.r.choice((0o666, 0o777, 0o600, 0o640, 0o755, 0o1666)), umask=self.r.choice((0, 0, 0o22, 0o2, 0o77)))
        return op

    def g_open(self):
        if len(self.s.handles) >= self.max_handles:
            return None
        p = self.file()
        if not p:
            return None
        self.nh += 1
        fl = self.r.choices((os.O_RDWR, os.O_RDONLY, os.O_WRONLY, os.O_RDWR | os.O_APPEND, os.O_WRONLY | os.O_APPEND,
                             os.O_RDWR | os.O_TRUNC, os.O_WRONLY | os.O_TRUNC), (10, 4, 3, 2, 1, 1.5, 1))[0]
        if self.no_trunc:
            fl &= ~os.O_TRUNC
        return {"op": "open", "path": p, "h": f"h{self.nh}", "flags": fl}

    def g_release(self):
        h = self.handle()
        if not h or (len(self.s.handles) < 3 and self.r.random() < 0.7):
            return None
        return {"op": "release", "h": h}

    def g_write(self):
        h = self.handle(avoid=os.O_RDONLY)
        if not h:
            return None
        f = self.s.handles[h][0]
        off, n = self.offset(len(f.data)), self.length()
        if self.s.handles[h][2] & os.O_APPEND:
            off = len(f.data)
        if off + n > (self.maxb + 4) * self.bs:
            return None
        return {"op": "write", "h": h, "off": off, "n": n, "seed": self.next_seed()}

    def g_read(self):
        h = self.handle(avoid=os.O_WRONLY)
        if not h:
            return None
        f = self.s.handles[h][0]
        n = self.length() if self.r.random() < 0.8 else 128 * 1024
        return {"op": "read", "h": h, "off": self.offset(len(f.data)), "n": n}

    def g_fsync(self):
        h = self.handle()
        return h and {"op": "fsync", "h": h, "data": self.r.random() < 0.4}

    def tsize(self, f):
        r, bs = self.r, self.bs
        size = len(f.data)
        k = r.random()
        if k < 0.15:
            return 0
        if k < 0.3:
            return max(0, size + r.choice((-1, 1, -bs, bs)))
        if k < 0.45:
            return r.randrange(self.maxb) * bs
        if k < 0.75 and size:
            return r.randrange(size + 1)
        return min(self.maxb * bs, r.randrange(self.maxb * bs))

    def g_truncate(self):
        p = self.file()
        return p and {"op": "truncate", "path": p, "size": self.tsize(self.s.files[p])}

    def g_ftruncate(self):
        h = self.handle(avoid=os.O_RDONLY)
        return h and {"op": "ftruncate", "h": h, "size": self.tsize(self.s.handles[h][0])}

    def g_stat(self):
        if self.r.random() < 0.15:
            return {"op": "stat", "path": self.r.choice(sorted(self.s.dirs)).rstrip("/") + "/" + self.r.choice(self.pool + ["z"])}
        p = self.file()
        return p and {"op": "stat", "path": p}

    def g_fstat(self):
        h = self.handle()
        return h and {"op": "fstat", "h": h}

    def g_readall(self):
        p = self.file()
        return p and {"op": "readall", "path": p}

    def g_unlink(self):
        ps = sorted(self.s.files) + sorted(self.s.syms)
        return ps and {"op": "unlink", "path": self.r.choice(ps)}

    def g_rename(self):
        ps = sorted(self.s.files) + sorted(self.s.syms)
        if not ps:
            return None
        a = self.r.choice(ps)
        b = self.file() if self.r.random() < 0.4 else self.path(new=True)
        op = {"op": "rename", "a": a, "b": b}
        if self.r.random() < 0.06:
            op["flags"] = self.r.choice((1, 2))
        return b and op

    def g_renamedir(self):
        ds = sorted(d for d in self.s.dirs if d != "/")
        if not ds:
            return None
        a = self.r.choice(ds)
        if self.r.random() < 0.3 and len(ds) > 1:
            b = self.r.choice(ds)
        else:
            d = self.r.choice(sorted(self.s.dirs))
            b = d.rstrip("/") + "/" + self.r.choice(("p", "q", "r"))
        return {"op": "rename", "a": a, "b": b}

    def g_link(self):
        p = self.file()
        return p and {"op": "link", "a": p, "b": self.path(new=True)}

    def g_mkdir(self):
        if len(self.s.dirs) > 4:
            return None
        d = self.r.choice(sorted(self.s.dirs))
        if d.count("/") > 2:
            return None
        op = {"op": "mkdir", "path": d.rstrip("/") + "/" + self.r.choice(("p", "q", "r"))}
        if self.r.random() < 0.4:
            op.update(mode=self.r.choice((0o777, 0o700, 0o1777, 0o775)), umask=self.r.choice((0, 0, 0o22, 0o2, 0o77)))
        return op

    def g_rmdir(self):
        ds = sorted(d for d in self.s.dirs if d != "/")
        return ds and {"op": "rmdir", "path": self.r.choice(ds)}

    def g_symlink(self):
        return {"op": "symlink", "path": self.path(new=True), "target": self.r.choice(("a", "../x", "no/such/thing", "p/a" * 20, "long/" * 100, "x" * 4000))}

    def g_readlink(self):
        ps = sorted(self.s.syms)
        return ps and {"op": "readlink", "path": self.r.choice(ps)}

    def g_readdir(self):
        return {"op": "readdir", "path": self.r.choice(sorted(self.s.dirs))}

    def g_readdirplus(self):
        return {"op": "readdirplus", "path": self.r.choice(sorted(self.s.dirs))}

    def g_access(self):
        p = self.entry()
        return p and {"op": "access", "path": p, "mask": self.r.randrange(8)}

    def entry(self):
        """A file, or now and then a folder or a symbolic link."""
        others = sorted(self.s.dirs | set(self.s.syms))
        return self.r.choice(others) if others and self.r.random() < 0.3 else self.file()

    def g_chmod(self):
        p = self.entry()
        # the owner's own permissions stay, so that the backing file can still be opened
        low = self.r.choice((0o44, 0, 0o64, 0o155, self.r.randrange(0o200), 0o1000 + self.r.randrange(0o200)))
        return p and p not in self.s.syms and {"op": "chmod", "path": p, "mode": (0o700 if p in self.s.dirs else 0o600) | low}

    def g_chown(self):
        p = self.entry()
        return p and {"op": "chown", "path": p, "uid": self.r.choice((None, "own", "own", "other")),
                      "gid": self.r.choice((None, "own", "own", "group", "group", "group", "other"))}

    def g_utimens(self):
        p = self.entry()
        at = self.r.randrange(10**9, 2 * 10**9) * 10**9 + 123456789
        mt = self.r.randrange(10**9, 1_700_000_000) * 10**9 + self.r.randrange(10**9)
        # touch, touch -a, touch -m, with given times or the present
        at, mt = self.r.choice(((at, mt), (at, mt), (at, None), (None, mt), ("now", "now"), ("now", None), (None, "now")))
        return p and {"op": "utimens", "path": p, "atime": at, "mtime": mt, "handle": self.r.random() < 0.3}

    def g_readonly(self):
        ds = sorted(d for d in self.s.dirs if d != "/")
        if not ds:
            return None
        d = self.r.choice(ds)
        return {"op": "readonly", "path": d, "ro": d not in self.s.ro_dirs}

    def g_clear(self):
        return {"op": "clear"}

    def g_checkpoint(self):
        return {"op": "checkpoint"}

    def g_crash(self):
        return {"op": "crash", "how": self.r.choice(("kill",) * 6 + ("unmount", "unmount", "SIGTERM", "SIGINT"))}

    def g_lazy(self):
        return {"op": "lazy"}

    def g_report(self):
        return {"op": "report"}

    def g_usage(self):
        return {"op": "usage"}

    def g_clearquiet(self):
        """Nothing is read after it, so nothing is cached."""
        return {"op": "clear", "verify": False}

    def g_fds(self):
        return {"op": "fds"}

    def g_drain(self):
        return {"op": "drain", "how": self.r.choice(("unlink", "rename", "truncate", "clear", "unlink")), "seed": self.next_seed() << 20}
