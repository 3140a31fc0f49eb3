"""C14: the command pipe executes every command once and survives any input."""
import random

from vlib import gen
from vlib.runner import run_session
from .common import ASSUME_CLIENT, ASSUME_LOCAL, session_cases

LEVEL = "exploration"
RULE = ("one case is a random history with bursts of 1 to 25 lines on the command pipe: effective commands (clear-cache, checkpoint, report, "
        "usage, help), valid faults, and lines that are unknown, mutated or have one invalid value (grammar per command), up to 140000 bytes "
        "long, as one write or cut at random places with pauses; completion messages and report and usage outputs are counted, contents tell "
        "the order of clears and checkpoints, and the file operations that follow are ones that any wrongly accepted fault would act on; "
        "distinct by the final contents")
ASSUMPTIONS = [ASSUME_CLIENT, ASSUME_LOCAL, "a line ends with a new line",
               "lines whose validity the documentation leaves open (repeated attributes, unknown attributes of crash) are not sent"]
KINDS = ["pipe", "clear.content", "notify", "data", "lazy", "disk.checkpoint", "crash.content", "fault", "dead", "hang"]
W = {"access": 2, "link": 2, "symlink": 2, "rename": 3, "unlink": 2, "lazy": 4, "mkdir": 0.3, "renamedir": 0.2, "fsync": 6, "report": 0}
OPS = ["unlink", "truncate", "fsync", "write", "create", "access", "open", "read", "rename", "link", "symlink"]
MULTI = ("rename", "link", "symlink")
FILES = ["/a", "/b", "/c", "/d"]
BIG = ["2147483648", "99999999999999999999", "4294967297", "1" * 400]
# far longer than what recursion over the value survives
LONG = ["1" * 70000, "1," * 60000, "0" * 60000, "1," * 60000 + "x", "9" * 140000]
LONG_RGX = ["(" * 3000, "(" * 120000, "[a" * 60000, "(a" * 2500 + ")" * 2400, "a" * 60000 + "(", "\\" * 70001]


def big(r, small):
    """One of these values, or now and then one of the long ones."""
    return r.choice(LONG) if r.random() < 0.08 else r.choice(list(small) + BIG)


def word(r):
    return "".join(r.choice("abcdefghijklmnopqrstuvwxyz:=,._-/ 0123456789\t") for _ in range(r.randrange(0, 40)))


def crash(r, bad):
    """A crash command with exactly one thing wrong."""
    fop = r.choice(OPS)
    tim = r.choice(("before", "after"))
    rgx = r.choice(("root", ".*", "/a", "[abc]"))
    parts = {"timing": tim, "op": fop, "from_rgx": rgx}
    if fop in MULTI and r.random() < 0.5:
        parts["to_rgx"] = r.choice(("root", ".*"))
    k = r.randrange(9)
    if k == 0:
        parts["op"] = r.choice(("", "writ", "WRITE", "writes", "mkdir", "rmdir", "release", "none", "*", "getattr", "write,read", "flush", " write"))
    elif k == 1:
        del parts["op"]
    elif k == 2:
        parts["timing"] = r.choice(("", "now", "Before", "AFTER", "none", "before ", "during", "beforeafter"))
    elif k == 3:
        del parts["timing"]
    elif k == 4:
        del parts["from_rgx"]
        parts.pop("to_rgx", None)
    elif k == 5:
        parts["from_rgx"] = r.choice(("", "(", "[a", "a{2,1}", "*)", "(?<x", "\\", "[[:foo:]]", "a)"))
        if r.random() < 0.1:
            parts["from_rgx"] = r.choice(LONG_RGX)
        if parts["from_rgx"] == "":
            parts.pop("to_rgx", None)
    elif k == 6:
        parts["op"] = r.choice([o for o in OPS if o not in MULTI])
        parts["to_rgx"] = ".*"
    elif k == 7:
        parts["op"] = r.choice(MULTI)
        parts["to_rgx"] = r.choice(("(", "[a", "a{2,1}", "(((("))
    else:
        parts["op"] = r.choice([o for o in OPS if o not in MULTI])
        del parts["from_rgx"]
        parts["to_rgx"] = "root"
    return fields(r, "crash", parts)


def fields(r, name, parts):
    items = [f"{k}={v}" for k, v in parts.items()]
    r.shuffle(items)
    return "::".join(["lazyfs", name] + items)


def torn_op(r, bad):
    n = r.randrange(1, 5)
    parts = {"file": "@ROOT@" + r.choice(FILES), "persist": ",".join(map(str, r.sample(range(1, n + 1), r.randrange(1, n + 1))))}
    if r.random() < 0.5:
        parts["parts"] = str(n)
    else:
        parts["parts_bytes"] = ",".join(str(r.randrange(1, 600)) for _ in range(n))
    if r.random() < 0.5:
        parts["occurrence"] = "1"
    which = "parts" if "parts" in parts else "parts_bytes"
    k = r.randrange(12)
    if k == 0:
        del parts["file"]
    elif k == 1:
        parts["file"] = ""
    elif k == 2:
        del parts["persist"]
    elif k == 3:
        parts["persist"] = big(r, ("", "0", "-1", "a", "1,", ",1", "1,,2", "1;2", "1 2", "1.5", "[1]", "0x1", "1,0", "+1", str(n + 1),
                                   f"1,{n + 1}", f"{n + 1},1", "1,99"))
    elif k == 4:
        del parts[which]
    elif k == 5:
        parts["parts"], parts["parts_bytes"] = str(n), ",".join(["10"] * n)
    elif k == 6:
        parts.pop("parts_bytes", None)
        parts["parts"] = big(r, ["", "0", "-1", "-2", "x", "2,3", "1e3", " 2", "2 "])
    elif k == 7:
        parts.pop("parts", None)
        parts["parts_bytes"] = big(r, ["", "0", "10,0", "-5", "a,b", "10,", ",10", "10;20", "0,0", "1,-1"])
        parts["persist"] = "1"
    elif k == 8:
        parts["occurrence"] = big(r, ["", "0", "-1", "one", "1,2", "1.0", " "])
    elif k == 9:
        parts[r.choice(("fil", "persists", "part", "timing", "op", "x", ""))] = "1"
    elif k == 10:
        parts = {}
    else:
        parts["persist"] = ",".join(map(str, range(1, n + 1))) + f",{n + r.randrange(1, 9)}"
    return fields(r, "torn-op", parts)


def torn_seq(r, bad):
    parts = {"file": "@ROOT@" + r.choice(FILES), "op": "write", "persist": r.choice(("1", "2", "1,2", "2,1"))}
    if r.random() < 0.5:
        parts["occurrence"] = "1"
    k = r.randrange(8)
    if k == 0:
        del parts["file"]
    elif k == 1:
        parts["file"] = ""
    elif k == 2:
        del parts["persist"]
    elif k == 3:
        parts["persist"] = big(r, ["", "0", "-1", "a", "1,", ",2", "1;2", "2 1", "1,0", "0,1", "1,-2"])
    elif k == 4:
        parts["op"] = r.choice(("", "read", "fsync", "Write", "none", "writes", "pwrite"))
    elif k == 5:
        del parts["op"]
    elif k == 6:
        parts["occurrence"] = big(r, ["", "0", "-1", "one", "1,2"])
    else:
        parts[r.choice(("fil", "parts", "timing", "x", ""))] = "1"
    return fields(r, "torn-seq", parts)


GOOD = ["lazyfs::clear-cache", "lazyfs::cache-checkpoint", "lazyfs::unsynced-data-report", "lazyfs::display-cache-usage", "lazyfs::help"]


def unknown(r, bad):
    k = r.randrange(9)
    if k == 0:
        g = r.choice(GOOD[:2])
        i = r.randrange(len(g))
        return r.choice((g[:i], g[:i] + r.choice("xX :\t\r") + g[i:], g[i + 1:] if i else "x" + g, g[:i] + g[i + 1:], g + "\r", g + " ", " " + g,
                         g.upper(), g + "::" + g, g + "::", g * 2, g.replace("::", ":", 1)))
    if k == 1:
        return ""
    if k == 2:
        return word(r)
    if k == 3:
        return "lazyfs::" + word(r).strip("torn-clashe")
    if k == 4:
        return r.choice(("x" * r.randrange(90, 300), "lazyfs::x" + "y" * r.choice((91, 92, 99, 100, 101, 199, 200, 4096, 70000))))
    if k == 5:
        return bytes(r.randrange(11, 256) for _ in range(r.randrange(1, 150))).decode("latin-1")
    if k == 6:
        z = "\0" * r.randrange(1, 5)
        g = r.choice(GOOD)
        return r.choice((z + g, g + z, g + z + word(r)))
    if k == 7:
        return "x" * (r.randrange(60, 105) - len(GOOD[0])) + r.choice(GOOD[:2])
    return r.choice((":", "::", "=", "lazyfs", "lazyfs::", "lazyfs::::clear-cache", "{}", "%s%n", "{0}{1}", "lazyfs::{}"))


def line(r, faults):
    k = r.random()
    if k < 0.16:
        return {"k": "clear", "t": GOOD[0]}
    if k < 0.28:
        return {"k": "checkpoint", "t": GOOD[1]}
    if k < 0.34:
        return {"k": "report", "t": GOOD[2]}
    if k < 0.40:
        return {"k": "usage", "t": GOOD[3]}
    if k < 0.44:
        return {"k": "none", "t": GOOD[4]}
    f = r.choice((crash, crash, torn_op, torn_op, torn_seq, unknown, unknown, unknown))
    return {"k": "none", "t": f(r, True), "f": f.__name__}


def valid_fault(r, p=None):
    """A fault that must work, however it was sent."""
    if r.random() < 0.6:
        fop = r.choice(("write", "read", "open", "create", "fsync", "truncate"))
        tim = r.choice(("before", "after"))
        rgx = r.choice(("root", "root/[a-h]$", "x*root" + "/*" * r.choice((1, 1, 30, 80))))
        op = {"kind": "crash", "fop": fop, "timing": tim, "from": rgx}
        return {"k": "fault", "t": fields(r, "crash", {"timing": tim, "op": fop, "from_rgx": rgx}), "fault": op}
    from . import c12, c13
    p = p or r.choice(FILES)
    if r.random() < 0.5:
        d = {"type": "torn-seq", "op": "write", "file": "@ROOT@" + p, "occurrence": 1, "persist": [2, 1]}
        c = c13.command(r, d)
    else:
        c = c12.command(r, c12.spec(r, 512, p, r.choice((None, None, None, 20000))))
    return {"k": "fault", "t": c["text"], "fault": {k: v for k, v in c.items() if k not in ("op", "text")}}


def burst(r, n, fault):
    lines = [line(r, False) for _ in range(n)]
    # several faults act side by side, of one file too; the first of its kind for a file counts
    p = r.choice(FILES)
    for _ in range(fault):
        lines.insert(r.randrange(len(lines) + 1), valid_fault(r, p if r.random() < 0.7 else None))
    how = r.choice(("one", "lines", "cuts", "bytes", "many"))
    return {"op": "pipe", "lines": lines, "how": how, "cutseed": r.randrange(1 << 30)}


def cases(tier, seed):
    return session_cases("C14", tier, seed, 1000, 20000, n=30)


def run_case(case, ctx):
    r = random.Random(f"C14-{case['seed']}")

    def body(s):
        g = gen.Gen(r, s, W, max_blocks=case["mb"], no_trunc=True)
        g.run(10)
        for i in range(5):
            s.apply(burst(r, r.choice((1, 2, 3, 5, 8, 25)), r.choice((1, 1, 2, 2, 3)) if i == 3 else r.random() < 0.15))
            d = s.deaths
            for _ in range(case["n"]):
                s.apply(g.next())
                if s.deaths > d:
                    break
        s.apply({"op": "crash"})

    return run_session(case, ctx, body, faults=True, kinds=KINDS, timeout=30.0)
