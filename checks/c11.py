"""C11: configured clear-cache faults act at exactly the chosen occurrence."""
import random

from vlib import fuse, gen
from vlib.runner import run_session
from vlib.session import Violation
from vlib.shimctl import Shim
from . import c12, c13
from .common import ASSUME_CLIENT, ASSUME_LOCAL, aim, session_cases

LEVEL = "fault_enumeration"
SHIM = True
RULE = ("one case is a random history on a program started with one to four clear-cache injections; operation, timing, crash flag and "
        "occurrence (1 to 5) are enumerated; the model counts the occurrences and predicts for every later read and for the backing "
        "files whether the unsynced data is there or lost and whether lazyfs lives; it counts when an injection fired, distinct by "
        "the final contents; injections of other kinds for the same files, never reached, and second ones, which are refused, stand around. In 300 further cases reads, opens or accesses of one file overlap, with pauses injected before calls on "
        "the backing file, and the injection must act once, when their number is reached")
ASSUMPTIONS = [ASSUME_CLIENT, ASSUME_LOCAL, "occurrences are operations that succeed; opens that truncate are left out"]
KINDS = ["fault", "dead", "hang", "data", "lazy", "disk.fsync", "ns", "clear.content", "crash.content", "errno", "attr.size"]
OPS = ["unlink", "truncate", "fsync", "write", "create", "access", "open", "read", "rename", "link", "symlink"]
MULTI = ("rename", "link", "symlink")
NAMES = ["/a", "/b", "/c"]


def injection(r, op, timing, crash, occ):
    d = {"type": "clear-cache", "op": op, "timing": timing, "crash": crash, "occurrence": occ, "from": "@ROOT@" + r.choice(NAMES)}
    if op in MULTI:
        d["to"] = "@ROOT@" + r.choice(NAMES)
    if op == "symlink":
        d["from"] = r.choice(("a", "../x"))
    return d


def cases(tier, seed):
    out = session_cases("C11", tier, seed, 1600, 30000, n=90)
    for k, c in enumerate(out):
        r = random.Random(f"C11c-{seed}-{k}")
        inj = [injection(r, OPS[k // 4 % len(OPS)], ("before", "after")[k % 2], bool(k // 2 % 2), r.choice((1, 1, 2, 2, 3, 5)))]
        c["first"] = inj[0]["op"]
        for _ in range(r.choice((0, 0, 1, 3))):
            i = injection(r, r.choice(OPS), r.choice(("before", "after")), r.random() < 0.4, r.randrange(1, 6))
            if i["from"] not in [x["from"] for x in inj]:       # one clear-cache injection per file is accepted
                inj.append(i)
        # faults of other kinds for the same files, which are never reached, and a second clear-cache injection, which is refused
        for d in list(inj):
            p = d["from"].replace("@ROOT@", "")
            if d["op"] != "symlink" and r.random() < 0.25:
                for s in r.sample((c12.spec(r, c["cfg"]["manual"][0], p), c13.spec(r, p)), r.choice((1, 1, 2))):
                    inj.insert(r.randrange(len(inj) + 1), dict(s, occurrence=100000))
            if r.random() < 0.2:
                second = injection(r, r.choice(OPS), r.choice(("before", "after")), r.random() < 0.4, r.choice((1, 2)))
                inj.insert(r.randrange(inj.index(d) + 1, len(inj) + 1), dict(second, _invalid=True, **{"from": d["from"]}))
        c["cfg"] = dict(c["cfg"], injections=inj)
    for i in range(300 if tier == "quick" else 6000):
        out.append({"kind": "parallel", "seed": f"C11p-{seed}-{i}", "op": ("read", "open", "access")[i % 3], "timing": ("after", "before")[i // 3 % 2],
                    "crash": i // 6 % 3 == 2})
    return out


def parallel(case, ctx):
    """The operations that the kernel lets overlap on one file, with one injection: it acts once, when the given number of them has been."""
    r = random.Random(case["seed"])
    fs = fuse.LazyFS(ctx["bin"]["plain"], base=ctx["base"], timeout=30.0)
    shim = Shim(ctx["shim"], fs.work, fs.root)
    fs.env.update(shim.env)
    op, k = case["op"], r.randrange(1, 14)
    out = {"tags": [f"parallel/{op}/{case['timing']}/{k}"], "stats": {"parallel": 1}, "compared": 0, "nontrivial": False, "extra": {"faults_fired": 0}}
    bs = r.choice((512, 4096))
    old, a, sent = b"o" * bs * 2, r.randbytes(bs * 2), []

    def new():
        d = r.randbytes(bs)
        fs.write(hb, 0, d)
        return d + old[bs:]

    try:
        inj = {"type": "clear-cache", "op": op, "timing": case["timing"], "crash": case["crash"], "occurrence": k, "from": "@ROOT@/a"}
        if not fs.start({"manual": (bs, bs, 64), "injections": [inj]}):
            raise fuse.Dead("lazyfs did not start")
        ha, hb = fs.create("/a"), fs.create("/b")
        fs.write(ha, 0, a)
        fs.write(hb, 0, old)
        fs.fsync(ha)
        fs.fsync(hb)
        fs.clear_cache()
        want, done, fired = new(), 0, False
        shim.delays(r.choice((200, 1000)), r.choice((300, 1000)))
        while done < k + 6:
            n = r.choice((1, 2, 4, 8, 8))
            what = f"{op} of /a, injection {case['timing']} occurrence {k}, {done} before and {n} at the same time: "
            node, _ = fs.resolve("/a")
            us, due = [], not fired and done + n >= k
            try:
                for _ in range(n):
                    done += 1
                    if op == "read":
                        us.append(fs.send(fuse.READ, node, fs.read_body(ha, 0, len(a))))
                    elif op == "open":
                        us.append(fs.send(fuse.OPEN, node, fuse.struct.pack("<II", 0, 0)))
                    else:
                        us.append(fs.send(fuse.ACCESS, node, fuse.struct.pack("<II", 4, 0)))
                for u in us:
                    d = fs.wait(u)
                    if op == "read" and d != a:
                        raise Violation("data", what + "the data read is wrong")
                    out["compared"] += 1
            except fuse.Dead:
                if not (due and case["crash"] and done >= k):
                    raise
            if due and case["crash"]:
                if fs.wait_exit(20) != -9:
                    raise Violation("fault", what + "lazyfs did not kill itself")
                fired = True
                break
            got = fs.read(hb, 0, len(old))
            if got != (old if due else want):
                raise Violation("fault", what + ("the unsynced data of /b is still there" if due else "the unsynced data of /b is lost"))
            out["compared"] += 1
            if due:
                fired = True
            want = new()
        text = fs.log()
        if text.count("Triggered fault condition") > 1:
            raise Violation("fault", f"{op} of /a, occurrence {k} of {done}: acted more than once")
        with open(fs.root + "/b", "rb") as f:
            if f.read() != old:
                raise Violation("disk.fsync", "the backing file of /b is not what was synced last")
        if not fired:
            raise Violation("fault", f"{op} of /a, occurrence {k} of {done}: did not act")
        out["nontrivial"], out["extra"] = True, {"faults_fired": 1}
    except Violation as v:
        out["violation"] = {"kind": v.kind, "detail": v.detail}
    except fuse.Hang as e:
        out["violation"] = {"kind": "hang", "detail": str(e)}
        out["confirm_runs"] = 3
    except (fuse.Dead, fuse.FuseError) as e:
        out["violation"] = {"kind": "dead", "detail": f"{type(e).__name__} {e} {fs.log()[-800:]}"}
    finally:
        out["requests"] = fs.requests
        out["extra"]["injected_pauses"] = shim.delayed()
        shim.close()
        fs.close()
    out["sig"] = case["seed"]
    return out


def run_case(case, ctx):
    if case.get("kind") == "parallel":
        return parallel(case, ctx)
    r = random.Random(f"C11-{case['seed']}")

    def body(s):
        w = {"link": 5, "symlink": 3, "rename": 7, "unlink": 5, "access": 3, "fsync": 7, "lazy": 4, "readall": 5, "mkdir": 0.3,
             "create": 12, "open": 9, "truncate": 5, "checkpoint": 0.5, "clear": 0.3}
        w[case["first"]] = w.get(case["first"], 20) * 2.5
        g = gen.Gen(r, s, w, max_blocks=case["mb"], no_trunc=True, max_files=2)
        while len(s.ops) < case["n"]:
            s.apply(g.next())
            if r.random() < 0.2:
                i = r.choice([i for i in case["cfg"]["injections"] if i["type"] == "clear-cache"])
                aim(g, i["op"], i["from"].replace("@ROOT@", ""), i.get("to", "").replace("@ROOT@", ""), i["from"])
        s.apply({"op": "verify"})
        s.apply({"op": "crash"})

    out = run_session(case, ctx, body, faults=True, kinds=KINDS)
    out["nontrivial"] = out["extra"]["faults_fired"] > 0
    return out
