"""What faults are due, computed from their parameters alone (the model's side of C10 to C13)."""

import re

MULTI = ("rename", "link", "symlink")


class Faults:
    def __init__(self, root, injections=()):
        self.root = root
        self.crashes = []        # (op, timing, from, to)
        self.configured = [{k: v.replace("@ROOT@", root) if isinstance(v, str) else v for k, v in i.items()}
                           for i in injections if not i.get("_invalid")]
        self.restarted()

    def restarted(self):
        self.crashes = []
        self.clears = [dict(i, count=0) for i in self.configured if i["type"] == "clear-cache"]
        self.torn_op, self.torn_seq = {}, {}
        for i in self.configured:
            self.add(i)

    def add(self, i):
        if i["type"] == "torn-op":
            self.torn_op.setdefault(i["file"], dict(i, count=0))
        elif i["type"] == "torn-seq":
            self.torn_seq.setdefault(i["file"], dict(i, count=0, group=0, first=None))

    def command(self, op):
        if op["kind"] == "crash":
            self.crashes.append((op["fop"], op["timing"], op.get("from"), op.get("to")))
        else:
            self.add({k: v.replace("@ROOT@", self.root) if isinstance(v, str) else v for k, v in op["spec"].items()})

    # ---- crash commands and configured clear faults ----

    def match(self, name, frm, to):
        """({what is due before}, {what is due after}) this operation; counts it."""
        res = {"before": set(), "after": set()}
        for op, timing, f, t in self.crashes:
            if op == name and (f is None or re.search(f, frm)) and (t is None or name not in MULTI or re.search(t, to)):
                res[timing].add("crash")
        for c in self.clears:
            if c["op"] == name and c["from"] == frm and (name not in MULTI or c["to"] == to):
                c["count"] += 1
                if c["count"] == c["occurrence"]:
                    res[c["timing"]].add("crash" if c["crash"] else "clear")
        return res["before"], res["after"]

    # ---- torn writes ----

    def torn(self, path, off, data):
        """([(offset, bytes) that reach the backing file], does lazyfs die)"""
        s = self.torn_seq.get(path)
        out = []
        if s is not None:
            s["count"] += 1
            n = s["count"]
            if n == 1:
                s["first"] = (off, data)
            if n == 2:
                s["group"] += 1
            if n >= 2 and s["group"] == s["occurrence"]:
                if n == 2 and 1 in s["persist"]:
                    out.append(s["first"])
                    if max(s["persist"]) == 1:
                        return out, True
                if n in s["persist"]:
                    out.append((off, data))
                if n == max(s["persist"]):
                    return out, True
        t = self.torn_op.get(path)
        if t is not None:
            t["count"] += 1
            if t["count"] == t["occurrence"]:
                if "parts_bytes" in t:
                    if sum(t["parts_bytes"]) != len(data):
                        return out, False
                    sizes = t["parts_bytes"]
                else:
                    k = t["parts"]
                    sizes = [len(data) // k] * k
                    sizes[-1] += len(data) % k
                start = 0
                for i, n in enumerate(sizes):
                    if i + 1 in t["persist"] and n:
                        out.append((off + start, data[start:start + n]))
                    start += n
                return out, True
        return out, False

    def synced(self, path):
        s = self.torn_seq.get(path)
        if s is not None:
            s["count"] = 0
            s["first"] = None
