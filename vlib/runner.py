"""Runs one check: builds, spreads the cases over worker processes, judges, writes evidence and replays."""

import importlib
import json
import multiprocessing
import os
import random
import re
import shutil
import sys
import tempfile
import time
import traceback

from . import build
from .fuse import Dead, Hang
from .session import Inconclusive, Violation

VERIF = build.VERIF
CTX = {}


def _init(ctx):
    CTX.update(ctx)
    CTX["mod"] = importlib.import_module("checks." + ctx["module"])
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _run(case):
    t = time.time()
    mod = CTX["mod"]
    try:
        r = mod.run_case(case, CTX)
    except Violation as v:
        r = {"violation": {"kind": v.kind, "detail": v.detail}}
    except Inconclusive as e:
        r = {"inconclusive": str(e)[:300]}
    except Exception:
        r = {"error": traceback.format_exc()}
    r.setdefault("case", case)
    r["id"] = case.get("id")
    r["wall"] = time.time() - t
    return r


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["known"]


def known_match(known, prop, v):
    for k in known:
        if k["property"] == prop and re.fullmatch(k["kind"], v["kind"]) and re.search(k["detail"], v["detail"], re.S):
            return k
    return None


def run_session(case, ctx, body, faults=False, **kw):
    """Runs body(session) and packs what was seen; used by most checks' run_case."""
    from .session import Session
    s = Session(ctx["bin"][case.get("variant", "plain")], case["cfg"], kw.pop("kinds"), base=ctx["base"],
                relaxed=case.get("relaxed", False), pre=case.get("pre"),
                **{k: v for k, v in kw.items() if k != "fdreader"})
    s.fdreader = kw.get("fdreader")
    out = {}
    try:
        if faults:
            from .faults import Faults
            s.faults = Faults(s.fs.root, case["cfg"].get("injections", ()))
        s.start()
        if "ops" in case:
            s.run(case["ops"])
        else:
            body(s)
    except Violation as v:
        out["violation"] = {"kind": v.kind, "detail": v.detail}
        out["case"] = dict(case, ops=s.ops)
        out["log"] = s.fs.log()[-3000:]
    except Inconclusive as e:
        out["inconclusive"] = str(e)[:300]
    finally:
        s.close()
    if s.foreign and "violation" not in out:
        out["inconclusive"] = "(went on) " + s.foreign[0]
    out["stats"] = s.stats
    out["tags"] = sorted(map(str, s.tags))
    out["compared"] = s.compared
    out["bytes"] = s.bytes_compared
    out["requests"] = s.fs.requests
    if faults:
        out["extra"] = {"deaths": s.deaths, "faults_fired": s.fired}
    out["sig"] = s.digest() + str(len(s.ops))
    out["ops"] = s.ops
    return out


def shrink(rec):
    """Leaves out operations as long as the same kind of violation remains."""
    kind = rec["violation"]["kind"]

    def fails(ops):
        r = _run(dict(rec["case"], ops=ops))
        return bool(r.get("violation")) and r["violation"]["kind"] == kind

    ops, n = rec["case"]["ops"], 2
    while len(ops) > 1:
        step = max(1, len(ops) // n)
        for i in range(0, len(ops), step):
            rest = ops[:i] + ops[i + step:]
            if fails(rest):
                ops, n = rest, max(2, n - 1)
                break
        else:
            if step == 1:
                break
            n = min(len(ops), n * 2)
    rec["case"]["ops"] = ops


def main(prop, argv):
    t0 = time.time()
    module = prop.lower()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("checks." + module)
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None

    base = tempfile.mkdtemp(prefix=f"vf_{prop}_", dir=os.environ.get("VERIF_TMP", "/tmp"))
    os.chmod(base, 0o711)
    code = 2
    try:
        code = _main(prop, mod, module, tier, seed, base, replay, t0)
    except build.BuildError as e:
        print(f"BUILD FAILED {e}")
        code = 2
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.stdout.flush()
    return code


def _main(prop, mod, module, tier, seed, base, replay, t0):
    bins = {}
    for v in getattr(mod, "VARIANTS", ["plain"]):
        built = build.build(v)
        bins[v] = f"{base}/lazyfs-{v}"
        shutil.copy2(built, bins[v])
        os.chmod(bins[v], 0o755)
    ctx = {"bin": bins, "base": base, "module": module, "tier": tier, "seed": seed}
    if getattr(mod, "SHIM", False):
        shim = f"{base}/shim.so"
        shutil.copy2(build.build_shim(), shim)
        os.chmod(shim, 0o755)
        ctx["shim"] = shim
    t_built = time.time()
    if replay:
        with open(replay) as f:
            rec = json.load(f)
        _init(ctx)
        if "--shrink" in sys.argv:
            shrink(rec)
            with open(replay, "w") as f:
                json.dump(rec, f, indent=1)
            for op in rec["case"]["ops"]:
                print(json.dumps(op))
        r = _run(rec["case"])
        print(json.dumps({k: r.get(k) for k in ("violation", "inconclusive", "error", "log")}, indent=1))
        if r.get("violation"):
            print(f"VIOLATION property={prop} replay={replay}")
            return 1
        return 0

    cases = mod.cases(tier, seed)
    for i, c in enumerate(cases):
        c.setdefault("id", i)
    if os.environ.get("VERIF_SAMPLE"):                    # one case in so many, for tools/mutate.py
        cases = random.Random(seed).sample(cases, max(8, len(cases) // int(os.environ["VERIF_SAMPLE"])))
    jobs = getattr(mod, "JOBS", 8)
    limit = getattr(mod, "LIMIT", {"quick": 420, "thorough": 3000})[tier]
    results, violations, errors = [], [], []
    known = load_known()
    known_seen = {}
    agg = {"stats": {}, "tags": set(), "compared": 0, "bytes": 0, "requests": 0, "extra": {}}
    samples, sigs, inconclusive = [], set(), []
    done = nontrivial = 0

    def absorb(r):
        nonlocal done, nontrivial
        done += 1
        for k, v in r.get("stats", {}).items():
            agg["stats"][k] = agg["stats"].get(k, 0) + v
        agg["tags"].update(r.get("tags", []))
        for k in ("compared", "bytes", "requests"):
            agg[k] += r.get(k, 0)
        for k, v in r.get("extra", {}).items():
            if isinstance(v, (int, float)):
                agg["extra"][k] = agg["extra"].get(k, 0) + v
            else:
                agg["extra"].setdefault(k, set()).update(v)
        if r.get("nontrivial", True) and not r.get("inconclusive") and not r.get("error"):
            nontrivial += 1
            sigs.add(r.get("sig", json.dumps(r["case"], sort_keys=True, default=str)))
            if len(samples) < 3:
                samples.append(r.get("sample") or {"case": {k: v for k, v in r["case"].items() if k != "ops"},
                                                   "ops": r.get("ops", [])[:25]})
        if r.get("inconclusive"):
            inconclusive.append(r["inconclusive"])
        if r.get("error"):
            errors.append(r["error"])
        if r.get("violation"):
            k = known_match(known, prop, r["violation"])
            if k:
                known_seen[k["id"]] = k
            else:
                violations.append(r)

    remaining, confirmed, doubtful = {c["id"]: c for c in cases}, [], []
    while remaining and not confirmed:
        violations, late = [], False
        with multiprocessing.Pool(jobs, _init, (ctx,)) as pool:
            it = pool.imap_unordered(_run, list(remaining.values()))
            for _ in range(len(remaining)):
                try:
                    r = it.next(timeout=max(0.001, limit - (time.time() - t0)))
                except multiprocessing.TimeoutError:
                    inconclusive.append("watchdog: the remaining cases were not run")
                    late = True
                    break
                absorb(r)
                remaining.pop(r["id"], None)
                if violations or len(errors) > 5:
                    break
            pool.terminate()

        # a hang is only believed when it happens again: the same case once more, or (where it takes a certain schedule) another case
        for r in violations:
            if r["violation"]["kind"].split(".")[0] == "hang" or r.get("confirm"):
                with multiprocessing.Pool(jobs, _init, (ctx,)) as pool:
                    again = next((a for a in pool.imap_unordered(_run, [r["case"]] * max(jobs, r.get("confirm_runs", 2)))
                                  if a.get("violation") and not known_match(known, prop, a["violation"])), None)
                    pool.terminate()
                if again is not None:
                    r = dict(again, case=r["case"])
                else:
                    doubtful.append(r)
                    if sum(d["violation"]["kind"] == r["violation"]["kind"] for d in doubtful) < 2:
                        inconclusive.append("not seen again: " + str(r["violation"])[:300])
                        continue
            confirmed.append(r)
        if late or len(errors) > 5:
            break
    violations = confirmed

    if not violations and hasattr(mod, "judge"):
        # a verdict over the whole run (for instance: the monitors must have seen enough)
        v = mod.judge(agg, tier)
        if v:
            errors.append(v)

    coverage = {
        "evaluations": done,
        "distinct_nontrivial": len(sigs),
        "rule": mod.RULE,
        "samples": samples,
        "operations": dict(sorted(agg["stats"].items())),
        "requests_answered": agg["requests"],
        "comparisons": agg["compared"],
        "bytes_compared": agg["bytes"],
        "distinct_situations": len(agg["tags"]),
        "inconclusive_cases": len(inconclusive),
        "build_s": round(t_built - t0, 1),
    }
    for k, v in agg["extra"].items():
        coverage[k] = v if isinstance(v, (int, float)) else (len(v) if len(v) > 40 else sorted(map(str, v)))
    if inconclusive:
        coverage["inconclusive_samples"] = inconclusive[:3]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": coverage,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")

    for k in known_seen.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(f"{prop} {tier} seed={seed}: {done} cases, {len(sigs)} distinct, {agg['requests']} requests, "
          f"{agg['compared']} comparisons, {len(agg['tags'])} situations, {len(inconclusive)} inconclusive, "
          f"{time.time() - t0:.1f} s")
    if violations:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for i, r in enumerate(violations[:3]):
            path = os.path.join(VERIF, "replays", f"{prop}-{seed}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "violation": r["violation"], "case": r["case"],
                           "log": r.get("log", "")}, f, indent=1, default=str)
            print(f"{r['violation']['kind']}: {r['violation']['detail']}"[:2000])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("ERROR " + errors[0])
        return 2
    if inconclusive:
        print(f"inconclusive: {inconclusive[0]}")
    if done == 0 or len(inconclusive) > max(3, done // 3):
        print("ERROR too few cases reached a verdict")
        return 2
    return 0
