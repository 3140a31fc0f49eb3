"""C15: the configuration decides geometry, capacity and faults."""
import os
import random
import signal
import time

from vlib import fuse, gen
from vlib.runner import run_session
from vlib.session import Violation, pattern
from . import c11, c12, c13
from .common import ASSUME_CLIENT, ASSUME_LOCAL, aim, session_cases

LEVEL = "exploration"
RULE = ("four kinds of case. Capacity: a generated configuration file (cache.simple with every unit, decimals and blocks_per_page, "
        "cache.manual, nothing at all; eviction, log and fifo options given or left out) is started, files are written block by block, and "
        "the number of blocks that stay off the backing files must be the configured capacity; the log, the completion pipe and the end "
        "of the program are looked at. Command line: the arguments in all orders, the configuration path with odd characters or left "
        "out, in the foreground and in the background. Injections: valid ones mixed with ones that have one invalid value, under a history that would make any of them act. "
        "Pipes: paths where no pipe can be made, which must end the start with an error. Distinct by configuration")
ASSUMPTIONS = [ASSUME_CLIENT, ASSUME_LOCAL, "configurations are valid TOML with values of the right types",
               "an unmount is a closed connection, for which libfuse's main returns 8"]
KINDS = ["fault", "dead", "hang", "data", "lazy", "disk.fsync", "ns"]
UNITS = {"gb": 1 << 30, "g": 1 << 30, "mb": 1 << 20, "m": 1 << 20, "kb": 1 << 10, "k": 1 << 10, "b": 1}
LIMIT_BLOCKS = 3000


def size_text(r, total):
    """(text, bytes it means) near `total`."""
    u = r.choice(list(UNITS))
    x = total / UNITS[u]
    if u == "b":
        t = str(total)
    else:
        t = ("%.6f" if u[0] == "g" else "%.3f" if u[0] == "m" else "%.1f") % x if r.random() < 0.6 or x < 2 else str(int(x))
    n = int(UNITS[u] * float(t))
    u = r.choice((u, u.upper(), u.capitalize()))
    return t + u, n


def capacity_case(r, i):
    c = {"kind": "capacity", "eviction": r.choice((True, False, None)), "log": r.choice((None, "none", "file", "bad")),
         "logops": r.choice((True, False, None)), "done": r.random() < 0.7, "fifo": r.random() < 0.85, "files": r.choice((1, 1, 2, 3)),
         "seed": r.randrange(1 << 40)}
    k = i % 3
    if k == 0:
        bpp = r.choice((None, 1, 2, 3, 4, 8, 16))
        text, n = size_text(r, r.choice((r.randrange(9000, 200_000), r.randrange(200_000, 2_000_000), r.randrange(2_000_000, 9_000_000),
                                         4096 * r.randrange(3, 40) + r.choice((0, -1, 1)))))
        while n <= (bpp or 1) * 4096:
            text, n = size_text(r, r.randrange(300_000, 2_000_000))
        c["simple"], c["bpp"] = text, bpp
        c["bs"], c["pages"], c["per"] = 4096, n // (4096 * (bpp or 1)), bpp or 1
    elif k == 1 or i % 2:
        bs = r.choice((512, 1024, 4096, 1000, 64, 8192, 100, 32768))
        per = r.choice((1, 1, 2, 3, 4, 8))
        n = r.choice((1, 2, 3, 5, 10, 64, 100, 257))
        c["manual"] = [bs, bs * per, n]
        c["bs"], c["pages"], c["per"] = bs, n, per
    else:
        c["bs"], c["pages"], c["per"] = 4096, 5, 1
    return c


def config_text(c, fs):
    b = lambda v: "true" if v else "false"
    rel = ("../", ".././", "./../")[c["seed"] % 3]       # from lazyfs's working directory
    out = ["[faults]"]
    if c["fifo"]:
        out.append('fifo_path="%s"' % (rel + "f.fifo" if c.get("relfifo") else fs.fifo))
    if c["done"]:
        out.append('fifo_path_completed="%s"' % (rel + "d.fifo" if c.get("relfifo") else fs.done_fifo))
    out.append("# a comment")
    out.append("[cache]")
    if c["eviction"] is not None:
        out.append("apply_eviction=" + b(c["eviction"]))
    if "simple" in c:
        out += ["[cache.simple]", f'custom_size="{c["simple"]}"']
        if c["bpp"] is not None:
            out.append(f"blocks_per_page={c['bpp']}")
    elif "manual" in c:
        out += ["[cache.manual]"] + [f"{k} = {v}" for k, v in zip(("io_block_size", "page_size", "no_pages"), c["manual"])]
    if c["log"] is not None or c["logops"] is not None:
        out.append("[filesystem]")
        if c["logops"] is not None:
            out.append("log_all_operations=" + b(c["logops"]))
        if c["log"] is not None:
            out.append('logfile="%s"' % {"none": "", "file": fs.work + "/the.log", "bad": fs.work + "/no/such/dir/x.log"}[c["log"]])
    return "\n".join(out) + "\n"


def arguments(c):
    """Every order of the program's arguments that means the same."""
    r = random.Random(c["seed"])
    groups = [["@MNT@"], ["--config-path", c["cname"][4:] if c.get("relcfg") else "@CFG@"], ["-o", "modules=subdir"], ["-o", "subdir=@ROOT@"], ["-f"]]
    if c.get("default"):
        del groups[1]
    if r.random() < 0.3:
        groups[-3:-1] = [["-o", "modules=subdir,subdir=@ROOT@"]]
    if c.get("background"):
        groups.remove(["-f"])
    if r.random() < 0.3:
        groups.append(["-s"])
    r.shuffle(groups)
    return sum(groups, [])


NAMES = ["config.toml", "a b.toml", "-o.toml", "x", "o/p/q.toml", "ü€.toml", "--config-path", "%s{}.toml", "c/--config-path=1"]

RELATIVE = ["-x.toml", "-f", "config.toml", "--config-path", "sub/x.toml", "-", "-s.toml", "./-o.toml"]


def cases(tier, seed):
    r = random.Random(f"C15-{seed}")
    n = 400 if tier == "quick" else 4000
    out = [capacity_case(r, i) for i in range(n)]
    for i in range(n // 2):
        c = capacity_case(r, 1)
        c["manual"], c["bs"], c["pages"], c["per"] = [512, 512, 7], 512, 7, 1
        c["kind"] = "args"
        c["cname"] = NAMES[i % len(NAMES)]
        if i % 5 == 4:
            c["cname"], c["default"] = "cwd/config/default.toml", True
        elif i % 5 == 2:
            c["cname"], c["relcfg"] = "cwd/" + RELATIVE[i // 5 % len(RELATIVE)], True
        c["relfifo"] = i % 7 in (0, 1, 2)
        if i % 3 == 1:
            c["background"] = True
            if c["log"] is None:
                c["log"] = "file"
        out.append(c)
    inj = session_cases("C15i", tier, seed, 1000, 20000, n=60)
    for k, c in enumerate(inj):
        q = random.Random(f"C15i-{seed}-{k}")
        c["kind"] = "injections"
        valid = []
        if q.random() < 0.5:
            valid = [q.choice((lambda: c12.spec(q, c["cfg"]["manual"][0], "/d"), lambda: c13.spec(q, "/d")))()]
        # every other one goes to files of its own, which no valid fault is on
        bad = [invalid(q, p) for p in q.sample(["/a", "/b", "/c"], q.randrange(1, 4)) for _ in range(q.choice((1, 1, 2)))]
        if valid and q.random() < 0.3:
            again = (c12.spec(q, c["cfg"]["manual"][0], "/d") if valid[0]["type"] == "torn-op" else c13.spec(q, "/d"))
            both = valid + [dict(again, _invalid=True)]          # a second one for the same file is left out
        else:
            both = valid[:]
        for b in bad:
            both.insert(q.choice((0, len(both))) if len(both) > 1 else q.randrange(len(both) + 1), b)
        c["cfg"] = dict(c["cfg"], injections=both)
    pipes = [{"kind": "pipes", "which": w, "how": h, "seed": i, "eviction": bool(i % 2)} for i, (w, h) in enumerate(
        (w, h) for _ in range(2 if tier == "quick" else 40) for w in ("fifo_path", "fifo_path_completed") for h in ("folder", "file", "long", "denied", "loop"))]
    return out + inj + pipes


def run_pipes(case, ctx):
    """A pipe that cannot be made: commands could never arrive or be answered, so lazyfs ends with an error and serves nothing."""
    fs = fuse.LazyFS(ctx["bin"]["plain"], base=ctx["base"], completed=False, timeout=20.0)
    out = {"tags": [f"pipes/{case['which']}/{case['how']}"], "stats": {"pipes": 1}, "compared": 1, "sig": repr(sorted((k, str(v)) for k, v in case.items() if k != "id"))}
    try:
        os.mkdir(fs.work + "/denied", 0o555)
        os.chmod(fs.work + "/denied", 0o555)
        os.symlink("loop", fs.work + "/loop")
        bad = fs.work + {"folder": "/no/such/x.fifo", "file": "/config.toml/x.fifo", "long": "/" + "n" * 300, "denied": "/denied/x.fifo", "loop": "/loop/x.fifo"}[case["how"]]
        lines = {"fifo_path": fs.fifo, case["which"]: bad}
        text = "[faults]\n" + "".join(f'{k}="{v}"\n' for k, v in sorted(lines.items(), reverse=case["seed"] % 3 == 0)) + "[cache]\napply_eviction=" + str(case["eviction"]).lower() + "\n"
        served = fs.start(text=text)
        if not served:
            rc = fs.wait_exit(20)
        if served or rc is None or rc == 0 or rc < 0:
            out["violation"] = {"kind": "pipes", "detail": f"{case['which']} in a place where no pipe can be made ({case['how']}): "
                                + ("lazyfs serves all the same" if served else f"lazyfs ended with {rc}") + "\n" + text}
    finally:
        out["requests"] = fs.requests
        fs.close()
    return out


def invalid(r, path):
    """An injection on `path` with exactly one thing wrong, which would act soon if it were taken."""
    t = r.randrange(7)
    if t < 2:
        d = {"type": "torn-op", "file": "@ROOT@" + path, "occurrence": 1, "parts": 2, "persist": [1]}
        k = r.randrange(11)
        if k == 0:
            d["persist"] = r.choice(([0], [3], [-1], [1, 3], [1, 2, 3], [2, 0], [100]))
        elif k == 1:
            d["parts"] = r.choice((0, -1, -5))
        elif k == 2:
            d["occurrence"] = r.choice((0, -1))
        elif k == 3:
            del d["persist"]
        elif k == 4:
            del d["parts"]
        elif k == 5:
            d["parts_bytes"] = [100, 100]
        elif k == 6:
            del d["occurrence"]
        elif k == 7:
            del d["file"]
        elif k == 8:
            del d["parts"]
            d["parts_bytes"] = r.choice(([0], [100, 0], [-1, 512], [0, 512]))
        elif k == 9:
            del d["parts"]
            d["parts_bytes"] = [256, 256]
            d["persist"] = r.choice(([3], [0], [1, 2, 3], [-1]))
        else:
            d["type"] = r.choice(("torn", "torn_op", "Torn-op", "", "split", "torn-ops"))
    elif t < 4:
        d = {"type": "torn-seq", "op": "write", "file": "@ROOT@" + path, "occurrence": 1, "persist": [1, 2]}
        k = r.randrange(8)
        if k == 0:
            d["persist"] = r.choice(([0], [-1], [0, 1], [2, 0], [1, -2]))
        elif k == 1:
            d["occurrence"] = r.choice((0, -1))
        elif k == 2:
            d["op"] = r.choice(("read", "fsync", "", "Write", "writes", "mkdir"))
        elif k == 7:
            d["type"] = r.choice(("torn", "torn_seq", "reorder", "torn-seqs"))
        else:
            del d[("op", "file", "occurrence", "persist")[k - 3]]
    else:
        d = {"type": "clear-cache", "op": r.choice(("write", "read", "open", "fsync", "truncate")), "timing": r.choice(("before", "after")),
             "from": "@ROOT@" + path, "occurrence": 1, "crash": True}
        k = r.randrange(11)
        if k == 0:
            d["op"] = r.choice(("", "writ", "mkdir", "release", "WRITE", "flush", "none"))
        elif k == 1:
            d["timing"] = r.choice(("", "now", "Before", "none"))
        elif k == 2:
            d["occurrence"] = r.choice((0, -1))
        elif k == 3:
            d["to"] = "@ROOT@/zz"
        elif k == 4:
            d["op"] = r.choice(("rename", "link", "symlink"))
        elif k == 5:
            d["type"] = r.choice(("clear_cache", "clearcache", "crash", ""))
        else:
            del d[("op", "timing", "occurrence", "crash", "from")[k - 6]]
    d["_invalid"] = True
    return d


def processes(word):
    """The processes with this in their command line."""
    out = []
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                with open(f"/proc/{p}/cmdline", "rb") as f:
                    if word.encode() in f.read():
                        out.append(int(p))
            except OSError:
                pass
    return out


def run_case(case, ctx):
    if case["kind"] == "injections":
        return run_injections(case, ctx)
    if case["kind"] == "pipes":
        return run_pipes(case, ctx)
    fs = fuse.LazyFS(ctx["bin"]["plain"], base=ctx["base"], completed=case["done"], timeout=20.0)
    out = {"tags": [], "stats": {}, "compared": 0}
    try:
        measure(case, fs, out)
    except Violation as v:
        out["violation"] = {"kind": v.kind, "detail": v.detail}
        out["log"] = fs.log()[-3000:] if os.path.exists(fs.log_path) else ""
    except fuse.Hang as e:
        out["violation"] = {"kind": "hang", "detail": str(e)}
    except fuse.Dead as e:
        out["violation"] = {"kind": "dead", "detail": f"lazyfs ended ({fs.wait_exit(5)}): {fs.log()[-600:]}"}
    finally:
        out["requests"] = fs.requests
        if case.get("background"):
            for pid in processes(fs.root):
                os.kill(pid, signal.SIGKILL)
        fs.close()
    out["sig"] = repr(sorted((k, str(v)) for k, v in case.items() if k not in ("seed", "id")))
    return out


def measure(case, fs, out):
    bs, cap = case["bs"], case["pages"] * case["per"]
    args = arguments(case) if case["kind"] == "args" else None
    fifo = None if case["fifo"] else fs.work + "/cwd/faults.fifo"
    text = config_text(case, fs)
    if not fs.start(text=text, args=args, cname=case.get("cname", "config.toml"), fifo=fifo):
        raise Violation("start", f"lazyfs did not start (exit {fs.wait_exit(10)}) with {args} and\n{text}\n{fs.log()[-800:]}")
    r = random.Random(case["seed"])
    n = min(cap, LIMIT_BLOCKS) + r.choice((1, 2, 5, case["per"], case["per"] + 1))
    nf = case["files"]
    hs = [fs.create(f"/f{i}") for i in range(nf)]
    share = [0] * nf
    step = max(1, 131072 // bs)
    order = []
    for b in range(n):
        # one after the other, in page-sized pieces, so that no page is left partly used
        i = (b // case["per"]) % nf if b // case["per"] * case["per"] + case["per"] <= cap else 0
        order.append((i, share[i]))
        share[i] += 1
    for i, b in order:
        data = pattern(case["seed"] + i * 100_000 + b, bs)
        if fs.write(hs[i], b * bs, data) != bs:
            raise Violation("write", f"write of block {b} was short")

    def on_disk(i, b):
        with open(f"{fs.root}/f{i}", "rb") as f:
            f.seek(b * bs)
            return f.read(bs) == pattern(case["seed"] + i * 100_000 + b, bs)

    out["compared"] += n
    gone = [k for k, (i, b) in enumerate(order) if on_disk(i, b)]
    # the cache is full when all its pages are in use: the last one may have room left
    fit = (case["pages"] - 1) * case["per"] + 1
    stay = n - len(gone)
    what = f"{n} blocks of {bs} bytes written, capacity {cap} blocks ({case['pages']} pages), eviction {case['eviction']}: "
    if case["eviction"] and n > cap:
        # whole pages leave, the oldest first
        per = case["per"]
        least = cap - per * nf
        if not least < stay <= cap:
            raise Violation("capacity", what + f"{stay} stay off the backing files\n{text}")
        if per == 1 and gone != list(range(n - cap)):
            raise Violation("capacity", what + f"{gone[:20]} are on the backing files instead of the oldest\n{text}")
    elif not case["eviction"] and (gone != list(range(stay, n)) or not min(n, fit) <= stay <= cap):
        raise Violation("capacity", what + f"{stay} stay off the backing files; {gone[:10]}... are on them\n{text}")
    elif n <= fit and gone:
        raise Violation("capacity", what + f"{gone[:10]} are on the backing files though all fit\n{text}")
    for i, b in r.sample(order, min(40, n)):
        if fs.read(hs[i], b * bs, bs) != pattern(case["seed"] + i * 100_000 + b, bs):
            raise Violation("data", what + f"block {b} of file {i} reads wrong")
    # the pipes
    fs.clear_cache()
    got = fs.completions() if case["done"] else None
    if case["done"] and got != 1:
        raise Violation("notify", f"{got} completion messages for one clear-cache command\n{text}")
    if not case["eviction"]:
        for i, b in r.sample(order[:stay], min(10, stay)):
            if fs.read(hs[i], b * bs, bs) == pattern(case["seed"] + i * 100_000 + b, bs):
                raise Violation("clear", what + f"block {b} of file {i} is there after clear-cache\n{text}")
    # the log
    out_log, log_file = fs.log(), ""
    if case["log"] == "file":
        try:
            with open(fs.work + "/the.log", errors="replace") as f:
                log_file = f.read()
        except FileNotFoundError:
            raise Violation("log", f"no log file\n{text}")
        if "running LazyFS" not in log_file:
            raise Violation("log", f"nothing in the log file\n{text}")
    for where, t in ((("output", out_log),) if not case.get("background") else ()) + ((("log file", log_file),) if case["log"] == "file" else ()):
        ops = t.count("lfs_write(")
        if ops != (n if case["logops"] else 0):
            raise Violation("log", f"{ops} writes in the {where}, {n} were done, log_all_operations is {case['logops']}\n{text}")
    for h in hs:
        fs.close_handle(h)
    if case.get("background"):
        rc = fs.proc.wait(20)
        pids = processes(fs.root)
        if len(pids) != 1 or rc != 0:
            raise Violation("background", f"started without -f, {len(pids)} processes are running and the first one ended with {rc}")
    fs.stop()
    if case.get("background"):
        end = time.monotonic() + 20
        while processes(fs.root):
            if time.monotonic() > end:
                raise Violation("exit", "started without -f, lazyfs is still there 20 s after its mount was taken away")
            time.sleep(0.01)
    if fs.exit not in (0, 8):       # libfuse's main returns 8 for a connection that was closed and not unmounted
        raise Violation("exit", f"lazyfs ended with {fs.exit} after its mount was taken away\n{text}\n{fs.log()[-400:]}")
    out["tags"] = [str(("capacity", case["kind"], bs, case["per"], min(cap, 20), case["eviction"], case["log"], case["logops"], case["fifo"], case.get("background")))]
    out["stats"] = {"blocks": n, "kept": stay, "runs": 1}


def run_injections(case, ctx):
    r = random.Random(f"C15-{case['seed']}")

    def body(s):
        g = gen.Gen(r, s, dict(c12.W, access=3, symlink=1), max_blocks=case["mb"], no_trunc=True)
        for op in ("create", "write", "read", "fsync", "truncate", "open", "write", "write"):
            for p in ("/a", "/b", "/c"):
                aim(g, op, p)
        g.run(case["n"] // 2)
        for op in ("write", "write", "read", "fsync", "open", "truncate"):
            for p in ("/a", "/b", "/c"):
                aim(g, op, p)
        for p in [i["file"][6:] for i in case["cfg"]["injections"] if not i.get("_invalid")]:
            for _ in range(3 * (max(i["occurrence"] for i in case["cfg"]["injections"] if not i.get("_invalid")) + 4)):
                if s.deaths:
                    break
                aim(g, r.choice(("write", "write", "write", "fsync")), p)
        g.run(case["n"] // 2)
        s.apply({"op": "crash"})

    return run_session(case, ctx, body, faults=True, kinds=KINDS)
