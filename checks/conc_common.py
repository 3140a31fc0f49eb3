"""What C17, C18 and C19 share: one history of overlapping operations."""
import random
import re

from vlib import fuse
from vlib.conc import Conc
from vlib.session import Inconclusive, Violation
from vlib.shimctl import Shim

# (io_block_size, page_size, no_pages), blocks per file, relaxed (the cache may overflow), eviction
GEOMS = [((512, 512, 1024), 10, False, False), ((4096, 4096, 512), 6, False, False), ((512, 2048, 512), 10, False, True),
         ((64, 256, 1024), 20, False, False), ((1000, 1000, 1024), 8, False, True), ((16384, 16384, 128), 3, False, False),
         ((512, 512, 6), 8, True, True), ((512, 1024, 8), 8, True, True), ((4096, 4096, 3), 5, True, True), ((64, 64, 10), 12, True, True),
         ((512, 512, 6), 8, True, False), ((64, 256, 4), 16, True, False), ((4096, 8192, 3), 5, True, False)]

NOISE = ["lazyfs::unsynced-data-report", "lazyfs::display-cache-usage", "lazyfs::help", "lazyfs::cache-checkpoint",
         "lazyfs::torn-op::file=/no/such/file::persist=1::parts=2::occurrence=1", "lazyfs::crash::timing=after::op=write::from_rgx=nosuchfile",
         "lazyfs::crash::timing=before::op=rename::from_rgx=nosuchfile::to_rgx=neither",
         "lazyfs::torn-seq::op=write::file=/no/such/file::persist=1,2::occurrence=1", "what"]


def conc_cases(tag, tier, seed, quick, thorough, rounds=12, n=30, **extra):
    out = []
    for i in range(quick if tier == "quick" else thorough):
        g, mb, relaxed, ev = GEOMS[i % len(GEOMS)]
        r = random.Random(f"{tag}-{seed}-{i}-c")
        c = {"seed": f"{tag}-{seed}-{i}", "cfg": {"manual": g, "eviction": ev}, "mb": mb, "relaxed": relaxed, "rounds": rounds, "n": n,
             "files": r.choice((1, 2, 3, 5)), "window": r.choice((3, 5, 8, 12)), "us": r.choice((0, 50, 300, 1000)),
             "pm": r.choice((0, 50, 300)), "locks": r.choice((0, 30, 150))}
        c.update(extra)
        out.append(c)
    return out


ACCESS = re.compile(r"^  (?:Previous )?(?:atomic )?(?:read|write) of size", re.I)


def races(reports):
    """The reports of ThreadSanitizer that are about lazyfs's own code: in a data race both accesses must be below a function of it
    (libfuse is not instrumented, what it does with its own memory cannot be judged)."""
    out = []
    for text in reports:
        for rep in text.split("==================\n"):
            m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]*)", rep)
            if not m:
                continue
            ours = lambda t: bool(re.search(r"^ +#\d+ .*(/lazyfs/(src|include)/|/libpcache/(src|include)/)", t, re.M))
            if m.group(1).startswith("data race"):
                stacks = [x for x in rep.split("\n\n") if any(ACCESS.match(ln) for ln in x.splitlines())]
                if len(stacks) < 2 or not all(ours(x) for x in stacks[:2]):
                    continue
            elif not ours(rep):
                continue
            out.append((m.group(1).strip(), rep))
    return out


def run_conc(case, ctx, variant="plain", env=None, kinds=("conc", "dead", "hang"), timeout=40.0, end=None, san=None):
    r = random.Random(case["seed"])
    fs = fuse.LazyFS(ctx["bin"][variant], base=ctx["base"], timeout=timeout)
    shim = Shim(ctx["shim"], fs.work, fs.root)
    fs.env.update(shim.env)
    fs.env.update(env or {})
    out = {"stats": {}, "tags": []}
    c = None
    try:
        cfg = dict(case["cfg"], injections=case.get("injections", []), logops=case.get("logops", False))
        if not fs.start(cfg):
            raise fuse.Dead("lazyfs did not start")
        noise = NOISE if case.get("noise") else ()
        if case["relaxed"]:
            noise = [x for x in noise]
        elif noise:
            noise = [x for x in noise if "checkpoint" not in x]
        c = Conc(fs, r, case["cfg"]["manual"][0], relaxed=case["relaxed"], window=case["window"], max_blocks=case["mb"],
                 commands=("checkpoint",) if case["relaxed"] else ("clear", "checkpoint", "clear"), noise=noise, weights=case.get("weights"))
        c.judging = not case.get("free")
        c.setup(case["files"])
        for t in case.get("pipe", ()):
            fs.pipe(t.replace("@ROOT@", fs.root).encode() + b"\n")
        shim.delays(case["us"], case["pm"], case["locks"])
        for i in range(case["rounds"]):
            c.round(case["n"], r.random() < 0.6)
        shim.delays(0, 0, 0)
        if c.judging:
            c.sync_all()
        if end:
            end(fs)
    except Violation as v:
        out["violation"] = {"kind": v.kind, "detail": v.detail}
    except (fuse.Dead, BrokenPipeError) as e:
        rc = fs.wait_exit(30)
        if rc == -9 and case.get("dies"):
            out["extra_deaths"] = 1
        else:
            out["violation"] = {"kind": "dead", "detail": f"lazyfs went away (exit {rc}): {e}: {fs.log()[-1500:]}"}
    except fuse.Hang as e:
        out["violation"] = {"kind": "hang", "detail": f"{e}"}
        out["confirm_runs"] = 3
    except OSError as e:
        out["violation"] = {"kind": "conc.error", "detail": f"{type(e).__name__} {e}"}
    finally:
        if san:
            fs.kill()
            bad = san(fs.reports())
            if bad:
                out["violation"] = {"kind": bad[0], "detail": bad[1]}
        out["delays"] = shim.delayed()
        shim.close()
        out["log"] = fs.log()[-3000:] if "violation" in out else ""
        if "violation" in out and c is not None:
            out["case"] = dict(case, history=[{**x, "files": [{**f, **{k: f[k].hex() for k in ("data0", "disk0", "data") },
                               "disk": f["disk"].hex() if f["disk"] is not None else None,
                               "looks": [{**q, "data": q["data"].hex() if q["data"] is not None else None} for q in f["looks"]]}
                               for f in x["files"]]} for x in c.rounds[-1:]])
        fs.close()
    v = out.get("violation")
    if v and v["kind"].split(".")[0] not in kinds:
        out["inconclusive"] = f"(other property) {v['kind']}: {v['detail'][:200]}"
        del out["violation"]
    if c is not None:
        out.update(stats=c.stats, tags=sorted(c.tags), compared=c.compared, bytes=c.bytes, requests=fs.requests,
                   extra={"overlapping_pairs": c.overlaps, "injected_pauses": out["delays"], "crashes": out.get("extra_deaths", 0)})
    out["sig"] = case["seed"]
    return out


def rejudge(case):
    """A stored history, judged again."""
    from vlib.conc import judge
    for x in case["history"]:
        for f in x["files"]:
            for k in ("data0", "disk0", "data", "disk"):
                f[k] = bytes.fromhex(f[k]) if f[k] is not None else None
            for q in f["looks"]:
                q["data"] = bytes.fromhex(q["data"]) if q["data"] is not None else None
        bad, _ = judge(x)
        if bad:
            return {"violation": {"kind": bad[0], "detail": "(recorded history) " + bad[1]}}
    return {}
