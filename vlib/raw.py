"""Requests with extreme and odd arguments and no model: what matters is that lazyfs survives them and answers."""
import errno
import os
import random
import struct

from . import fuse
from .session import pattern

SETXATTR, GETXATTR, LISTXATTR, REMOVEXATTR, FSYNCDIR, FALLOCATE, COPY_FILE_RANGE, BATCH_FORGET = 21, 22, 23, 24, 30, 43, 47, 42
GEOMS = [(512, 512, 16), (4096, 4096, 8), (64, 256, 16), (1000, 3000, 4), (24, 72, 12), (4096, 8192, 64), (131072, 131072, 4), (512, 512, 1),
         (1, 1, 300), (7, 7, 64), (48, 96, 100)]
TOP = 1 << 63


class Raw:
    def __init__(self, fs, r, bs):
        self.fs, self.r, self.bs = fs, r, bs
        self.nodes = [(1, "d", "")]       # (node, type, name)
        self.fhs = []                     # (node, fh, flags)
        self.stats = {}
        self.errors = set()

    def name(self):
        r = self.r
        k = r.random()
        if k < 0.55:
            return r.choice("abcdefghij").encode()
        if k < 0.63:
            return (r.choice("abc") * 255).encode()
        if k < 0.66:
            return b"x" * 256
        if k < 0.8:
            return r.choice((b"{}", b"%s%n%d", b"a b", b" ", b"lazyfs::clear-cache", b"a\nb", b"\xff\xfe", "ä€𝄞".encode(), b"..a", b"a::b=c",
                             b"'\"\\", b"*?[(", b"-rf", b"#x;y", b".fuse_hidden1", b"{0:>999}", b"\x01\x7f", b"~"))
        return bytes(r.choice(b"ab") for _ in range(r.randrange(1, 200)))

    def node(self, kinds="dfl"):
        c = [x for x in self.nodes if x[1] in kinds]
        return (self.r.choice(c[-12:] + c[:2]) if c else self.nodes[0])[0]

    def fh(self):
        return self.r.choice(self.fhs) if self.fhs else None

    def off(self):
        r, bs = self.r, self.bs
        return r.choice((0, 1, r.randrange(40) * bs, r.randrange(40 * bs + 1), max(0, r.randrange(30) * bs + r.choice((-1, 1))), r.randrange(min(1 << 18, bs * 1000))))

    def roff(self):
        r = self.r
        return self.off() if r.random() < 0.8 else r.choice((1 << 20, 1 << 31, (1 << 31) - 1, 1 << 32, 1 << 40, 1 << 62, TOP - 131072 - 1,
                                                            (self.bs << 31) - 1, self.bs << 31, self.bs << 32)) % (TOP - 131072)

    def size(self):
        r, bs = self.r, self.bs
        n = r.choice((1, 2, bs - 1, bs, bs + 1, 2 * bs, r.randrange(1, 4 * bs + 1), r.randrange(1, 8192), 131072, 131071, 65536))
        if bs < 64 and r.random() < 0.96:
            n = min(n, 400 * bs)
        return max(1, min(n, 131072))       # (the kernel sends no empty ones)

    def call(self, what, opcode, node, body=b""):
        self.stats[what] = self.stats.get(what, 0) + 1
        try:
            return self.fs.call(opcode, node, body)
        except fuse.FuseError as e:
            self.errors.add((what, errno.errorcode.get(e.errno, str(e.errno))))
            return None

    def entry(self, data, typ, name):
        if data:
            self.nodes.append((fuse.ENTRY.unpack_from(data)[0], typ, name))

    def step(self):
        r = self.r
        what = r.choices(list(WEIGHTS), list(WEIGHTS.values()))[0]
        getattr(self, what)()

    def create(self):
        nm = self.name()
        fl = r_flags(self.r) | os.O_CREAT | (os.O_EXCL if self.r.random() < 0.2 else 0)
        d = self.call("create", fuse.CREATE, self.node("d" if self.r.random() < 0.95 else "f"),
                      struct.pack("<IIII", fl, 0o100000 | self.r.choice((0o644, 0o600, 0o7777)), 0o22, 0) + nm + b"\0")
        if d:
            self.entry(d, "f", nm)
            self.fhs.append((self.nodes[-1][0], struct.unpack_from("<QI", d, 128)[0], fl))

    def open(self):
        n = self.node("f" if self.r.random() < 0.93 else "dl")
        fl = r_flags(self.r)
        d = self.call("open", fuse.OPEN, n, struct.pack("<II", fl, 0))
        if d:
            self.fhs.append((n, struct.unpack_from("<QI", d)[0], fl))

    def mknod(self):
        nm = self.name()
        d = self.call("mknod", fuse.MKNOD, self.node("d"), struct.pack("<IIII", self.r.choice((0o100644, 0o010644)), 0, 0o22, 0) + nm + b"\0")
        self.entry(d, "f", nm)

    def mkdir(self):
        nm = self.name()
        # the deepest folder, often
        n = self.r.choice([x for x in self.nodes if x[1] == "d"][-2:])[0]
        self.entry(self.call("mkdir", fuse.MKDIR, n, struct.pack("<II", 0o755, 0o22) + nm + b"\0"), "d", nm)

    def symlink(self):
        nm = self.name()
        t = self.r.choice((b"a", b"../../..", b"t" * 4000, b"/", self.name()))
        self.entry(self.call("symlink", fuse.SYMLINK, self.node("d"), nm + b"\0" + t + b"\0"), "l", nm)

    def lookup(self):
        known = self.r.choice(self.nodes)
        nm = known[2] if known[2] and self.r.random() < 0.6 else self.name()
        d = self.call("lookup", fuse.LOOKUP, self.node("d"), nm + b"\0")
        if d:
            mode = fuse.Attr(d[40:128]).mode >> 12
            self.entry(d, {4: "d", 10: "l"}.get(mode, "f"), nm)

    def write(self):
        h = self.fh()
        if h and (h[2] & 3 or self.r.random() < 0.1):
            n = self.size()
            self.call("write", fuse.WRITE, h[0], fuse.WRITE_IN.pack(h[1], self.off(), n, 0, 0, h[2], 0) + pattern(n, n))

    def read(self):
        h = self.fh()
        if h and (h[2] & 3 != 1 or self.r.random() < 0.1):
            n = self.size()
            off = self.roff()
            d = self.call("read", fuse.READ, h[0], fuse.READ_IN.pack(h[1], off, n, 0, 0, h[2], 0))
            if d is not None and len(d) > n:
                raise fuse.Dead(f"a read of {n} bytes was answered with {len(d)}")

    def setattr(self):
        r = self.r
        h = self.fh() if r.random() < 0.5 else None
        valid = 0
        for bit, p in ((8, 0.6), (1, 0.1), (16, 0.2), (32, 0.2), (128, 0.1), (256, 0.1), (2, 0.03), (4, 0.03)):
            if r.random() < p:
                valid |= bit
        if h:
            valid |= 64
        size = self.off() if r.random() < 0.95 else r.choice((1 << 12, (1 << 11) + 5)) * min(self.bs, 1024)
        t = r.choice((0, 1, 1_700_000_000, (1 << 33), (1 << 63) - 1))
        self.call("setattr", fuse.SETATTR, h[0] if h else self.node("f" if r.random() < 0.9 else "dl"),
                  fuse.SETATTR_IN.pack(valid, 0, h[1] if h else 0, size, 0, t, t, 0, r.choice((0, 999999999)), 5, 0,
                                       r.choice((0o644, 0o755, 0o600)), 0, r.choice((fuse.SANDBOX_UID, 0)), fuse.SANDBOX_UID, 0))

    def getattr(self):
        h = self.fh() if self.r.random() < 0.5 else None
        self.call("getattr", fuse.GETATTR, h[0] if h else self.node(), struct.pack("<IIQ", 1 if h else 0, 0, h[1] if h else 0))

    def release(self):
        if self.fhs:
            h = self.fhs.pop(self.r.randrange(len(self.fhs)))
            self.call("flush", fuse.FLUSH, h[0], struct.pack("<QIIQ", h[1], 0, 0, 0))
            self.call("release", fuse.RELEASE, h[0], struct.pack("<QIIQ", h[1], h[2], 0, 0))

    def fsync(self):
        h = self.fh()
        if h:
            self.call("fsync", fuse.FSYNC, h[0], struct.pack("<QII", h[1], self.r.randrange(2), 0))

    def unlink(self):
        x = self.r.choice(self.nodes)
        self.call("unlink", fuse.UNLINK, self.node("d"), (x[2] or b"a") + b"\0")

    def rmdir(self):
        x = self.r.choice(self.nodes)
        self.call("rmdir", fuse.RMDIR, self.node("d"), (x[2] or b"a") + b"\0")

    def rename(self):
        r = self.r
        a, b = r.choice(self.nodes)[2] or b"a", (r.choice(self.nodes)[2] or b"b") if r.random() < 0.6 else self.name()
        ds = [x for x in self.nodes if x[1] == "d"]
        d1 = r.choice(ds)[0]
        d2 = d1 if r.random() < 0.7 else 1          # (a folder moved below itself: the kernel refuses)
        if d1 != d2:
            b = b"R%d" % r.randrange(1 << 40)
        if d1 == d2 and a == b:                     # (the kernel has nothing to do)
            return
        if r.random() < 0.8:
            self.call("rename", fuse.RENAME, d1, struct.pack("<Q", d2) + a + b"\0" + b + b"\0")
        else:
            self.call("rename2", fuse.RENAME2, d1, struct.pack("<QII", d2, r.choice((0, 1, 2, 4)), 0) + a + b"\0" + b + b"\0")

    def link(self):
        nm = self.name()
        self.entry(self.call("link", fuse.LINK, self.node("d"), struct.pack("<Q", self.node("f" if self.r.random() < 0.9 else "dl")) + nm + b"\0"), "f", nm)

    def readlink(self):
        self.call("readlink", fuse.READLINK, self.node("l" if self.r.random() < 0.8 else "f"))

    def access(self):
        self.call("access", fuse.ACCESS, self.node(), struct.pack("<II", self.r.randrange(8), 0))

    def statfs(self):
        self.call("statfs", fuse.STATFS, self.node())

    def xattr(self):
        r, n = self.r, self.node("fd")
        nm = r.choice((b"user.a", b"user." + b"n" * r.choice((1, 100, 250)), b"trusted.x", b"nonsense", b"user.", b"x" * 256, b"security.capability"))
        k = r.randrange(4)
        if k == 0:
            v = os.urandom(r.choice((0, 1, 100, 4000, 65536)))
            self.call("setxattr", SETXATTR, n, struct.pack("<II", len(v), r.randrange(3)) + nm + b"\0" + v)
        elif k == 1:
            self.call("getxattr", GETXATTR, n, struct.pack("<II", r.choice((0, 1, 50, 65536)), 0) + nm + b"\0")
        elif k == 2:
            self.call("listxattr", LISTXATTR, n, struct.pack("<II", r.choice((0, 1, 50, 65536)), 0))
        else:
            self.call("removexattr", REMOVEXATTR, n, nm + b"\0")

    def dirs(self):
        r, n = self.r, self.node("d" if self.r.random() < 0.95 else "f")
        d = self.call("opendir", fuse.OPENDIR, n, struct.pack("<II", 0, 0))
        if not d:
            return
        fh = struct.unpack_from("<Q", d)[0]
        for _ in range(r.randrange(1, 3)):
            self.call("readdir", r.choice((fuse.READDIR, fuse.READDIRPLUS)), n,
                      fuse.READ_IN.pack(fh, r.choice((0, 0, 1, 2, 50)), r.choice((0, 24, 100, 4096, 131072)), 0, 0, 0, 0))
        if r.random() < 0.3:
            self.call("fsyncdir", FSYNCDIR, n, struct.pack("<QII", fh, r.randrange(2), 0))
        self.call("releasedir", fuse.RELEASEDIR, n, struct.pack("<QIIQ", fh, 0, 0, 0))

    def alloc(self):
        h = self.fh()
        if h:
            k = self.r.randrange(3)
            if k == 0:
                self.call("fallocate", FALLOCATE, h[0], struct.pack("<QQQII", h[1], self.off(), self.size() + 1, self.r.choice((0, 1, 3)), 0))
            elif k == 1:
                g = self.fh()
                self.call("copy_file_range", COPY_FILE_RANGE, h[0], struct.pack("<QQQQQQQ", h[1], self.off(), g[0], g[1], self.off(), self.size(), 0))
            else:
                self.call("lseek", fuse.LSEEK, h[0], struct.pack("<QQII", h[1], self.off(), self.r.choice((0, 1, 2, 3, 4)), 0))

    def command(self):
        r = self.r
        t = r.choice(("lazyfs::clear-cache", "lazyfs::cache-checkpoint", "lazyfs::unsynced-data-report", "lazyfs::display-cache-usage",
                      "lazyfs::torn-op::file=@ROOT@/" + r.choice("abc") + "::persist=1::parts=2::occurrence=99",
                      "lazyfs::crash::timing=after::op=write::from_rgx=no-such"))
        self.fs.pipe(t.replace("@ROOT@", self.fs.root).encode() + b"\n")
        if r.random() < 0.5:
            self.fs.pipe_done()
        self.stats["command"] = self.stats.get("command", 0) + 1


WEIGHTS = {"create": 8, "open": 6, "mknod": 1, "mkdir": 3, "symlink": 1.5, "lookup": 4, "write": 22, "read": 18, "setattr": 12, "getattr": 5,
           "release": 4, "fsync": 5, "unlink": 3, "rmdir": 1, "rename": 5, "link": 3, "readlink": 1.5, "access": 1, "statfs": 0.7, "xattr": 3,
           "dirs": 3, "alloc": 2, "command": 4}


def r_flags(r):
    return r.choice((os.O_RDWR, os.O_RDWR, os.O_RDWR, os.O_RDONLY, os.O_WRONLY, os.O_RDWR | os.O_APPEND, os.O_RDWR | os.O_TRUNC, os.O_RDWR | os.O_SYNC,
                     os.O_RDWR | os.O_DIRECT, os.O_RDONLY | os.O_DIRECTORY, os.O_RDWR | os.O_NOFOLLOW))


def run_raw(case, ctx):
    r = random.Random(case["seed"])
    fs = fuse.LazyFS(ctx["bin"]["plain"], base=ctx["base"], timeout=60.0)
    out = {"stats": {}, "tags": [], "sig": case["seed"]}
    g = r.choice(GEOMS)
    x = None
    try:
        if not fs.start({"manual": g, "eviction": r.random() < 0.6, "logops": r.random() < 0.3}):
            raise fuse.Dead("it did not start")
        x = Raw(fs, r, g[0])
        x.create()
        for _ in range(case["n"]):
            x.step()
        if r.random() < 0.5:
            fs.pipe_done()
        fs.stop()
        if fs.exit not in (0, 8):
            raise fuse.Dead(f"exit {fs.exit} after the connection was closed")
    except fuse.Dead as e:
        rc = fs.wait_exit(30) if fs.proc else fs.exit
        out["violation"] = {"kind": "dead", "detail": f"lazyfs went away ({rc}): {e}: {fs.log()[-1500:]}"}
    except fuse.Hang as e:
        out["violation"] = {"kind": "hang", "detail": str(e)}
        out["confirm_runs"] = 3
    finally:
        fs.close()
    if x:
        out.update(stats=x.stats, tags=[f"{a}:{b}" for a, b in sorted(x.errors)], compared=sum(x.stats.values()), requests=fs.requests)
    return out
