"""A stand-in for the kernel's side of FUSE, plus the management of one real lazyfs process.

The unmodified lazyfs sources are compiled (vlib/build.py) and the resulting program is started with
'/dev/fd/N' as its mount point: libfuse takes that as an already open FUSE connection, here one end of a
SOCK_SEQPACKET socketpair.  Everything a client of the mount could do is sent as FUSE messages on the other
end, and several requests may be outstanding at the same time (lazyfs serves them on its own worker threads).
Nothing is cached on this side: every observation is lazyfs's own answer.
"""

import ctypes
import errno
import fcntl
import os
import select
import shutil
import signal
import socket
import stat
import struct
import subprocess
import tempfile
import termios
import time

LOOKUP, FORGET, GETATTR, SETATTR, READLINK, SYMLINK = 1, 2, 3, 4, 5, 6
MKNOD, MKDIR, UNLINK, RMDIR, RENAME, LINK, OPEN, READ, WRITE = 8, 9, 10, 11, 12, 13, 14, 15, 16
STATFS, RELEASE, FSYNC, FLUSH, INIT, OPENDIR, READDIR, RELEASEDIR = 17, 18, 20, 25, 26, 27, 28, 29
ACCESS, CREATE, READDIRPLUS, RENAME2, LSEEK = 34, 35, 44, 45, 46

INIT_FLAGS = 0x7F | 1 << 10 | 1 << 12 | 1 << 13 | 1 << 18 | 1 << 19

IN_HEADER = struct.Struct("<IIQQIIII")
OUT_HEADER = struct.Struct("<IiQ")
ATTR = struct.Struct("<QQQQQQIIIIIIIIII")
ENTRY = struct.Struct("<QQQQII")
READ_IN = struct.Struct("<QQIIQII")
WRITE_IN = READ_IN
SETATTR_IN = struct.Struct("<IIQQQQQQIIIIIIII")

FATTR_MODE, FATTR_UID, FATTR_GID, FATTR_SIZE = 1, 2, 4, 8
FATTR_ATIME, FATTR_MTIME, FATTR_FH, FATTR_ATIME_NOW, FATTR_MTIME_NOW = 16, 32, 64, 128, 256

MAX_IO = 128 * 1024
SANDBOX_UID = 54321


SANITIZERS = {"ASAN_OPTIONS": "detect_leaks=0:handle_abort=1:verify_asan_link_order=0:detect_stack_use_after_return=1:strict_string_checks=1:"
                              "check_initialization_order=1",
              "UBSAN_OPTIONS": "print_stacktrace=1",
              "TSAN_OPTIONS": "halt_on_error=0:second_deadlock_stack=1:history_size=4:exitcode=0"}


COLLECT = None           # a list: sanitizer reports are kept there when a scratch folder is removed


class Dead(Exception):
    """The lazyfs process went away while a request was outstanding (or before it was sent)."""


class Hang(Exception):
    """No answer arrived within the watchdog's time."""


class FuseError(OSError):
    pass


class Attr:
    __slots__ = ("ino", "size", "blocks", "atime", "mtime", "ctime", "mode", "nlink", "uid", "gid", "blksize")

    def __init__(self, raw):
        (self.ino, self.size, self.blocks, a, m, c, an, mn, cn, self.mode, self.nlink, self.uid, self.gid, _rdev,
         self.blksize, _flags) = ATTR.unpack(raw)
        self.atime = a * 10**9 + an
        self.mtime = m * 10**9 + mn
        self.ctime = c * 10**9 + cn


def be_unprivileged():
    """Called in the child: the code under test only ever owns scratch files."""
    for sig in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP):
        signal.signal(sig, signal.SIG_DFL)  # the caller may ignore them
    if os.getuid() == 0:
        os.setgroups([SANDBOX_UID + 1])         # so that there is a group to give files to
        os.setgid(SANDBOX_UID)
        os.setuid(SANDBOX_UID)


def own(path):
    if os.getuid() == 0:
        os.chown(path, SANDBOX_UID, SANDBOX_UID)


class FdReader:
    """Reads which files a process has open, as the user the process runs as."""

    def __init__(self):
        a, b = socket.socketpair()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                a.close()
                be_unprivileged()
                while True:
                    q = b.recv(64)
                    if not q:
                        break
                    out = []
                    try:
                        d = f"/proc/{int(q)}/fd"
                        for n in os.listdir(d):
                            try:
                                out.append(os.readlink(f"{d}/{n}"))
                            except FileNotFoundError:
                                pass
                        ans = "\n".join(out)
                    except OSError as e:
                        ans = f"!{e}"
                    ans = ans.encode(errors="surrogateescape")
                    b.sendall(struct.pack("<I", len(ans)) + ans)
            finally:
                os._exit(0)
        b.close()
        self.s = a

    def __call__(self, pid):
        self.s.sendall(str(pid).encode())
        n = struct.unpack("<I", self._get(4))[0]
        t = self._get(n).decode(errors="surrogateescape")
        if t.startswith("!"):
            raise OSError(t)
        return t.split("\n")

    def _get(self, n):
        d = b""
        while len(d) < n:
            p = self.s.recv(n - len(d))
            if not p:
                raise OSError("the descriptor reader ended")
            d += p
        return d

    def close(self):
        self.s.close()
        os.waitpid(self.pid, 0)


class Handle:
    __slots__ = ("node", "fh", "flags", "inode", "path")

    def __init__(self, node, fh, flags):
        self.node, self.fh, self.flags = node, fh, flags
        self.inode = None
        self.path = None


class LazyFS:
    """One scratch folder and (one at a time) lazyfs processes on it."""

    def __init__(self, binary, base=None, env=None, timeout=60.0, completed=True):
        self.binary = binary
        self.work = tempfile.mkdtemp(prefix="lfs_", dir=base)
        os.chmod(self.work, 0o755)
        own(self.work)
        self.root = self.work + "/root"
        os.mkdir(self.root)
        own(self.root)
        self.fifo = self.work + "/f.fifo"
        self.done_fifo = self.work + "/d.fifo" if completed else None
        self.env = env or {}
        self.timeout = timeout
        self.proc = None
        self.client = None
        self.fifo_fd = -1
        self.done_fd = -1
        self.log_path = self.work + "/stdout.log"
        self.san_prefix = self.work + "/san"
        self.unique = 1
        self.pending = {}
        self.requests = 0
        self.starts = 0

    # ---- process ----

    def config_text(self, cfg):
        c = dict(cfg)
        lines = ["[faults]", f'fifo_path="{self.fifo}"']
        if self.done_fifo:
            lines.append(f'fifo_path_completed="{self.done_fifo}"')
        lines.append("[cache]")
        lines.append("apply_eviction=" + ("true" if c.get("eviction") else "false"))
        if "manual" in c:
            b, p, n = c["manual"]
            lines += ["[cache.manual]", f"io_block_size={b}", f"page_size={p}", f"no_pages={n}"]
        elif "simple" in c or "manual" not in c:
            lines += ["[cache.simple]", f'custom_size="{c.get("simple", "8mb")}"']
            if c.get("bpp") is not None:
                lines.append(f"blocks_per_page={c['bpp']}")
        lines.append("[filesystem]")
        lines.append("log_all_operations=" + ("true" if c.get("logops") else "false"))
        lines.append(f'logfile="{c.get("logfile", "")}"')
        for inj in c.get("injections", []):
            lines.append("[[injection]]")
            for k, v in inj.items():
                if k[0] == "_":
                    continue
                if isinstance(v, bool):
                    lines.append(f"{k}={'true' if v else 'false'}")
                elif isinstance(v, str):
                    lines.append(f'{k}="{v}"')
                else:
                    lines.append(f"{k}={v}")
        return "\n".join(lines) + "\n"

    def start(self, cfg=None, text=None, args=None, cname="config.toml", fifo=None):
        """`args`: the command line, with @MNT@, @CFG@ and @ROOT@ to be filled in; `fifo`: where the command pipe is expected."""
        assert self.proc is None
        if text is None:
            text = self.config_text(cfg or {})
        text = text.replace("@ROOT@", self.root)
        cwd = self.work + "/cwd"
        if not os.path.isdir(cwd):
            os.mkdir(cwd)
            own(cwd)
        cpath = self.work + "/" + cname
        if os.path.dirname(cname):
            os.makedirs(os.path.dirname(cpath), exist_ok=True)
        with open(cpath, "w") as f:
            f.write(text)
        for p in (self.fifo if fifo is None else None, self.done_fifo):
            if p and not os.path.exists(p):
                os.mkfifo(p, 0o666)
                own(p)
        if self.done_fifo:
            self.done_fd = os.open(self.done_fifo, os.O_RDWR | os.O_NONBLOCK)
        self.done_buf = b""
        self.client, server = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        for s in (self.client, server):
            s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 20)
        self.starts += 1
        self.log_path = f"{self.work}/stdout.{self.starts}.log"
        log = open(self.log_path, "wb")
        # memory from malloc starts out as rubbish: what is read before it was written shows
        env = {"PATH": "/usr/bin:/bin", "HOME": self.work, "LANG": "C.UTF-8",
               "GLIBC_TUNABLES": "glibc.malloc.perturb=165"}
        for k, v in SANITIZERS.items():
            env[k] = f"log_path={self.san_prefix}:{v}"
        env.update(self.env)
        args = args or ["@MNT@", "--config-path", "@CFG@", "-o", "modules=subdir", "-o", "subdir=@ROOT@", "-f"]
        args = [a.replace("@MNT@", f"/dev/fd/{server.fileno()}").replace("@CFG@", cpath).replace("@ROOT@", self.root) for a in args]
        self.background = not any(a == "-f" and args[i - 1:i] != ["--config-path"] for i, a in enumerate(args))
        self.proc = subprocess.Popen(
            [self.binary] + args,
            cwd=cwd, stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT,
            pass_fds=[server.fileno()], env=env, preexec_fn=be_unprivileged, restore_signals=True)
        log.close()
        server.close()
        self.pending = {}
        self.unique = 1
        self.node_by_path = {}
        try:
            body = struct.pack("<IIII", 7, 31, 131072, INIT_FLAGS)
            u = self.send(INIT, 0, body)
            self.wait(u)
        except (Dead, Hang, OSError):
            return False
        self.fifo_fd = os.open(fifo or self.fifo, os.O_RDWR | os.O_NONBLOCK)
        return True

    def log(self):
        with open(self.log_path, errors="replace") as f:
            return f.read()

    def reports(self):
        """What sanitizers wrote."""
        out = []
        for n in sorted(os.listdir(self.work)) if os.path.isdir(self.work) else ():
            if n.startswith("san."):
                with open(f"{self.work}/{n}", errors="replace") as f:
                    out.append(f.read())
        return out

    def kill(self):
        """Power failure: SIGKILL."""
        if self.proc:
            self.proc.kill()
            self._reap()

    def stop(self, sig=None):
        """Ordinary end: the connection closes (or a signal arrives), the session loop ends."""
        if self.proc:
            if sig is None:
                self.client.close()
            else:
                self.proc.send_signal(sig)
            try:
                self.proc.wait(5)
            except subprocess.TimeoutExpired:
                self.proc.send_signal(signal.SIGTERM)
                try:
                    self.proc.wait(2)
                except subprocess.TimeoutExpired:
                    self.proc.kill()
            self._reap()

    def _reap(self):
        rc = self.proc.wait()
        self.exit = rc
        try:
            self.client.close()
        except OSError:
            pass
        for fd in (self.fifo_fd, self.done_fd):
            if fd >= 0:
                os.close(fd)
        self.fifo_fd = self.done_fd = -1
        self.proc = None
        return rc

    def wait_exit(self, seconds=20.0):
        """The exit status once the process is gone (None: still there)."""
        try:
            self.proc.wait(seconds)
        except subprocess.TimeoutExpired:
            return None
        return self._reap()

    def alive(self):
        # in the background (no -f) the program that was started ends at once; who dies later is missed by the requests
        return self.proc is not None and (self.background or self.proc.poll() is None)

    def close(self):
        self.kill()
        if COLLECT is not None:
            COLLECT.extend(self.reports())
        shutil.rmtree(self.work, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # ---- messages ----

    def send(self, opcode, node, body=b""):
        u = self.unique
        self.unique += 2
        head = IN_HEADER.pack(40 + len(body), opcode, u, node, 0, 0, os.getpid(), 0)
        try:
            self.client.send(head + body)
        except (BrokenPipeError, ConnectionResetError, ConnectionRefusedError, OSError) as e:
            raise Dead(str(e))
        self.requests += 1
        self.pending[u] = None
        return u

    def recv_one(self, timeout=None):
        """Receives one reply; returns its unique id."""
        self.client.settimeout(self.timeout if timeout is None else timeout)
        try:
            data = self.client.recv(1 << 20)
        except socket.timeout:
            raise Hang("no reply")
        except (ConnectionResetError, OSError) as e:
            raise Dead(str(e))
        if not data:
            raise Dead("connection closed")
        ln, err, u = OUT_HEADER.unpack_from(data)
        if u in self.pending:
            self.pending[u] = (err, data[16:])
        return u

    def wait(self, u):
        while self.pending[u] is None:
            self.recv_one()
        err, data = self.pending.pop(u)
        if err:
            raise FuseError(-err, os.strerror(-err))
        return data

    def call(self, opcode, node, body=b""):
        return self.wait(self.send(opcode, node, body))

    # ---- path level: what the kernel sends with all entry and attribute timeouts at zero ----

    def lookup(self, parent, name):
        data = self.call(LOOKUP, parent, os.fsencode(name) + b"\0")
        return ENTRY.unpack_from(data)[0], Attr(data[40:128])

    def walk(self, path):
        """(parent node, last name) of a path such as '/a/b'."""
        parts = [p for p in path.split("/") if p]
        node = 1
        for p in parts[:-1]:
            node, _ = self.lookup(node, p)
        return node, parts[-1]

    def resolve(self, path):
        parts = [p for p in path.split("/") if p]
        node, attr = 1, None
        for p in parts:
            node, attr = self.lookup(node, p)
        if attr is None:
            attr = self.getattr_node(1)
        return node, attr

    def getattr_node(self, node, fh=None):
        body = struct.pack("<IIQ", 1 if fh is not None else 0, 0, fh or 0)
        return Attr(self.call(GETATTR, node, body)[16:104])

    def stat(self, path):
        node, attr = self.resolve(path)
        return attr

    def fstat(self, h):
        return self.getattr_node(h.node, h.fh)

    def create(self, path, flags=os.O_RDWR, mode=0o644, umask=0o22):
        parent, name = self.walk(path)
        try:
            self.lookup(parent, name)
        except FuseError as e:
            if e.errno != errno.ENOENT:
                raise
        body = struct.pack("<IIII", flags | os.O_CREAT, mode & ~umask | stat.S_IFREG, umask, 0) + os.fsencode(name) + b"\0"
        data = self.call(CREATE, parent, body)
        node = ENTRY.unpack_from(data)[0]
        fh = struct.unpack_from("<QI", data, 128)[0]
        return Handle(node, fh, flags)

    def open_node(self, node, flags=os.O_RDWR):
        data = self.call(OPEN, node, struct.pack("<II", flags, 0))
        return Handle(node, struct.unpack_from("<QI", data)[0], flags)

    def open(self, path, flags=os.O_RDWR):
        node, _ = self.resolve(path)
        return self.open_node(node, flags)

    def read_body(self, h, off, size):
        return READ_IN.pack(h.fh, off, size, 0, 0, h.flags, 0)

    def read(self, h, off, size):
        return self.call(READ, h.node, self.read_body(h, off, size))

    def write_body(self, h, off, data):
        return WRITE_IN.pack(h.fh, off, len(data), 0, 0, h.flags, 0) + data

    def write(self, h, off, data):
        return struct.unpack_from("<I", self.call(WRITE, h.node, self.write_body(h, off, data)))[0]

    def fsync(self, h, datasync=False):
        self.call(FSYNC, h.node, struct.pack("<QII", h.fh, 1 if datasync else 0, 0))

    def flush(self, h):
        try:
            self.call(FLUSH, h.node, struct.pack("<QIIQ", h.fh, 0, 0, 0))
        except FuseError as e:
            if e.errno != errno.ENOSYS:
                raise

    def release(self, h):
        self.call(RELEASE, h.node, struct.pack("<QIIQ", h.fh, h.flags, 0, 0))

    def close_handle(self, h):
        self.flush(h)
        self.release(h)

    def setattr_body(self, valid, fh=0, size=0, atime=0, mtime=0, mode=0, uid=0, gid=0):
        return SETATTR_IN.pack(valid, 0, fh, size, 0, atime // 10**9, mtime // 10**9, 0, atime % 10**9,
                               mtime % 10**9, 0, mode, 0, uid, gid, 0)

    def setattr(self, node, valid, **kw):
        return Attr(self.call(SETATTR, node, self.setattr_body(valid, **kw))[16:104])

    def truncate(self, path, size):
        node, _ = self.resolve(path)
        return self.setattr(node, FATTR_SIZE, size=size)

    def ftruncate(self, h, size):
        return self.setattr(h.node, FATTR_SIZE | FATTR_FH, size=size, fh=h.fh)

    def chmod(self, path, mode):
        node, _ = self.resolve(path)
        return self.setattr(node, FATTR_MODE, mode=mode)

    def chown(self, path, uid=None, gid=None):
        node, _ = self.resolve(path)
        return self.setattr(node, (0 if uid is None else FATTR_UID) | (0 if gid is None else FATTR_GID), uid=uid or 0, gid=gid or 0)

    def utimens(self, path, atime, mtime):
        node, _ = self.resolve(path)
        return self.setattr(node, FATTR_ATIME | FATTR_MTIME, atime=atime, mtime=mtime)

    def utimes(self, path, atime=None, mtime=None, h=None):
        """`None` leaves that time alone, "now" sets it to the present; with a handle this is futimens."""
        valid, fh = (0, 0) if h is None else (FATTR_FH, h.fh)
        for t, bit, now in ((atime, FATTR_ATIME, FATTR_ATIME_NOW), (mtime, FATTR_MTIME, FATTR_MTIME_NOW)):
            valid |= 0 if t is None else bit | now if t == "now" else bit
        node = self.resolve(path)[0] if h is None else h.node
        return self.setattr(node, valid, fh=fh, atime=atime if isinstance(atime, int) else 0,
                            mtime=mtime if isinstance(mtime, int) else 0)

    def unlink(self, path):
        parent, name = self.walk(path)
        self.lookup(parent, name)
        self.call(UNLINK, parent, os.fsencode(name) + b"\0")

    def rmdir(self, path):
        parent, name = self.walk(path)
        self.lookup(parent, name)
        self.call(RMDIR, parent, os.fsencode(name) + b"\0")

    def mkdir(self, path, mode=0o755, umask=0o22):
        parent, name = self.walk(path)
        self.call(MKDIR, parent, struct.pack("<II", mode & ~umask, umask) + os.fsencode(name) + b"\0")

    def rename(self, a, b, flags=0):
        p1, n1 = self.walk(a)
        p2, n2 = self.walk(b)
        self.lookup(p1, n1)
        try:
            self.lookup(p2, n2)
        except FuseError as e:
            if e.errno != errno.ENOENT:
                raise
        self.call(RENAME2 if flags else RENAME, p1, (struct.pack("<QII", p2, flags, 0) if flags else struct.pack("<Q", p2)) + os.fsencode(n1) + b"\0" + os.fsencode(n2) + b"\0")

    def link(self, a, b):
        node, _ = self.resolve(a)
        p2, n2 = self.walk(b)
        self.call(LINK, p2, struct.pack("<Q", node) + os.fsencode(n2) + b"\0")

    def symlink(self, target, path):
        parent, name = self.walk(path)
        self.call(SYMLINK, parent, os.fsencode(name) + b"\0" + os.fsencode(target) + b"\0")

    def readlink(self, path):
        node, _ = self.resolve(path)
        return os.fsdecode(self.call(READLINK, node))

    def access(self, path, mask=os.R_OK):
        node, _ = self.resolve(path)
        self.call(ACCESS, node, struct.pack("<II", mask, 0))

    def lseek(self, h, off, whence):
        return struct.unpack("<Q", self.call(LSEEK, h.node, struct.pack("<QQII", h.fh, off, whence, 0))[:8])[0]

    def readdir(self, path):
        node = 1 if path == "/" else self.resolve(path)[0]
        fh = struct.unpack_from("<Q", self.call(OPENDIR, node, struct.pack("<II", 0, 0)))[0]
        names, off = [], 0
        while True:
            data = self.call(READDIR, node, READ_IN.pack(fh, off, 4096, 0, 0, 0, 0))
            if not data:
                break
            i = 0
            while i < len(data):
                ino, off, ln, typ = struct.unpack_from("<QQII", data, i)
                names.append((os.fsdecode(data[i + 24:i + 24 + ln]), typ))
                i += (24 + ln + 7) & ~7
        self.call(RELEASEDIR, node, struct.pack("<QIIQ", fh, 0, 0, 0))
        return names

    def readdirplus(self, path):
        """[(name, attributes or None)]: a listing that may carry attributes, which a kernel would believe."""
        node = 1 if path == "/" else self.resolve(path)[0]
        fh = struct.unpack_from("<Q", self.call(OPENDIR, node, struct.pack("<II", 0, 0)))[0]
        out, off = [], 0
        while True:
            data = self.call(READDIRPLUS, node, READ_IN.pack(fh, off, 8192, 0, 0, 0, 0))
            if not data:
                break
            i = 0
            while i < len(data):
                nodeid = ENTRY.unpack_from(data, i)[0]
                attr = Attr(data[i + 40:i + 128])
                ino, off, ln, typ = struct.unpack_from("<QQII", data, i + 128)
                out.append((os.fsdecode(data[i + 152:i + 152 + ln]), attr if nodeid else None))
                i += (152 + ln + 7) & ~7
        self.call(RELEASEDIR, node, struct.pack("<QIIQ", fh, 0, 0, 0))
        return out

    def read_all(self, h, size, around=lambda call: call()):
        """The file's content as a client sees it who has learnt the size from getattr; reads 128 KiB at a time."""
        out = bytearray()
        while len(out) < size:
            part = around(lambda: self.read(h, len(out), min(MAX_IO, size - len(out))))
            out += part
            if not part:
                break
        return bytes(out)

    # ---- the command pipe ----

    def fifo_pending(self):
        n = ctypes.c_int(0)
        fcntl.ioctl(self.fifo_fd, termios.FIONREAD, n)
        return n.value

    def _drained(self, seconds):
        end = time.monotonic() + seconds
        pause = 0.0002
        while self.fifo_pending():
            if not self.alive():
                raise Dead("lazyfs ended while a command was waiting")
            if time.monotonic() > end:
                return False
            time.sleep(pause)
            pause = min(pause * 1.5, 0.02)
        return True

    def command(self, text, wait=True):
        """Writes a command line; with wait, returns once the worker has finished with it.

        The worker reads commands one after the other, so when it has taken a second (harmless) command off the
        pipe it is done with the first.  No log text is relied on.
        """
        os.write(self.fifo_fd, text.encode() + b"\n")
        if not wait:
            return
        if not self._drained(self.timeout):
            raise Hang("the command was not read")
        os.write(self.fifo_fd, b"lazyfs::help\n")
        if not self._drained(self.timeout):
            raise Hang("the command did not finish")

    def pipe(self, data):
        """Bytes on the command pipe, as they are."""
        end = time.monotonic() + self.timeout
        while data:
            try:
                n = os.write(self.fifo_fd, data)
                data = data[n:]
            except BlockingIOError:
                if not self.alive():
                    raise Dead("lazyfs ended while commands were being written")
                if time.monotonic() > end:
                    raise Hang("the commands are not read")
                time.sleep(0.0005)

    def pipe_done(self):
        """Returns when all lines on the pipe have been worked off."""
        if not self._drained(self.timeout):
            raise Hang("the commands were not read")
        self.pipe(b"lazyfs::help\n")
        if not self._drained(self.timeout):
            raise Hang("the commands did not finish")

    def completions(self):
        """How many times 'finished::clear-cache' has been announced since the last call."""
        try:
            while True:
                d = os.read(self.done_fd, 65536)
                if not d:
                    break
                self.done_buf += d
        except BlockingIOError:
            pass
        n = self.done_buf.count(b"finished::clear-cache\n")
        rest = self.done_buf.replace(b"finished::clear-cache\n", b"")
        self.done_buf = b""
        self.done_rest = rest
        return n

    def clear_cache(self):
        self.command("lazyfs::clear-cache")

    def checkpoint(self):
        self.command("lazyfs::cache-checkpoint")
