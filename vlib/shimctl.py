"""The driver's side of vlib/shim.c."""
import mmap
import os
import struct

KINDS = ["open", "read", "write", "trunc", "sync", "times", "rename", "link", "unlink", "symlink", "mkdir", "rmdir", "stat", "opendir",
         "access", "chmod", "lseek", "statfs"]
K = {k: i for i, k in enumerate(KINDS)}
RULE = struct.Struct("<6i")
HEAD = 16
SIZE = HEAD + 32 * RULE.size + 4 + 32 * 4


class Shim:
    def __init__(self, lib, work, root):
        self.path = work + "/shim.ctl"
        with open(self.path, "wb") as f:
            f.write(bytes(SIZE))
        os.chmod(self.path, 0o666)
        self.f = open(self.path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), SIZE)
        self.env = {"LD_PRELOAD": lib, "SHIM_CTL": self.path, "SHIM_ROOT": root}

    def delays(self, us, per_mille, locks=0):
        """Pauses of up to `us` before `per_mille` of the calls and around `locks` of 10000 lock operations."""
        self.m[4:16] = struct.pack("<3i", us, per_mille, locks)

    def rule(self, kind, err=0, after=0, times=-1, cut=0):
        i = HEAD + K[kind] * RULE.size
        self.m[i:i + RULE.size] = RULE.pack(err, after, times, cut, 0, 0)

    def arm(self, on=True):
        self.m[0:4] = struct.pack("<i", 1 if on else 0)

    def clear(self):
        self.arm(False)
        for k in KINDS:
            self.rule(k)

    def hits(self, kind):
        return RULE.unpack_from(self.m, HEAD + K[kind] * RULE.size)[5]

    def delayed(self):
        return struct.unpack_from("<i", self.m, HEAD + 32 * RULE.size)[0]

    def calls(self, kind):
        return struct.unpack_from("<i", self.m, HEAD + 32 * RULE.size + 4 + 4 * K[kind])[0]

    def close(self):
        self.m.close()
        self.f.close()
