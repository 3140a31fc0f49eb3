"""C17: no memory errors or undefined behaviour for any input."""
import importlib
import os
import random
import re
import struct

from vlib import fuse, raw
from .common import ASSUME_CLIENT, ASSUME_LOCAL
from .conc_common import conc_cases, run_conc

LEVEL = "exploration"
SHIM = True
VARIANTS = ["asan", "plain"]
RULE = ("one case is a case of another check (model histories with every geometry and cache size, with eviction, commands, faults, fuzzed "
        "command lines and configuration files, overlapping operations) or a history of requests with extreme arguments (names of 255 bytes, "
        "deep folders, reads and writes of 0 to 131072 bytes at any offset, extended attributes, seeks, allocation, failing calls, wrong "
        "types) or an unmount with commands and operations in progress, run on the program built with AddressSanitizer, UndefinedBehaviorSanitizer and checked iterators or, some of them, under "
        "valgrind's memcheck; a sanitizer's report or an end that is neither an unmount nor a configured crash is a violation; "
        "distinct by the contents or the seed")
ASSUMPTIONS = [ASSUME_CLIENT, ASSUME_LOCAL, "leaks are not looked for",
               "uninitialised values are seen by memcheck, in fewer cases, when an answer, a branch or an address depends on them"]

# check -> cases in the quick tier
FROM = {"c01": 110, "c05": 50, "c06": 60, "c07": 110, "c08": 110, "c09": 200, "c10": 80, "c11": 80, "c12": 80, "c13": 70, "c14": 100,
        "c15": 70, "c16": 70, "c22": 40, "c04": 30}
CONC = 130
RAW = 150
VALGRIND = 4
ODD = 14


def cases(tier, seed):
    out = []
    k = 1 if tier == "quick" else 20
    for m, n in FROM.items():
        all_ = importlib.import_module("checks." + m).cases("quick", f"{seed}-17" if k == 1 else f"{seed}-17t")
        # sparse files beyond 2^31, caches full to the brim, crowded folders, blocks bigger than a stack; block numbers beyond 2^31 are a known finding of C01
        odd = [c for c in all_ if c.get("far") or c.get("brim") or c.get("crowd") or m == "c01" and c["cfg"].get("manual", (0,))[0] > 1 << 19]
        all_ = [c for c in all_ if c not in odd]
        odd = [c for c in odd if not c.get("blockid")]
        random.Random(f"{m}-{seed}").shuffle(odd)
        for c in odd[::max(1, len(odd) // (ODD * k))][:ODD * k]:
            c.pop("variant", None)
            out.append({"via": m, "case": c, "bin": "asan"})
        step = max(1, len(all_) // (n * k))
        for i, c in enumerate(all_[::step][:n * k]):
            c.pop("variant", None)
            out.append({"via": m, "case": c, "bin": "asan"})
        for c in all_[1::max(1, len(all_) // (VALGRIND * k + 1))][:VALGRIND * k]:
            c.pop("variant", None)
            out.append({"via": m, "case": c, "bin": "memcheck"})
    for c in conc_cases("C17", tier, seed, CONC, CONC * k):
        c["noise"] = True
        out.append({"via": "conc", "case": c, "bin": "asan"})
    for i in range(RAW * k):
        out.append({"via": "raw", "case": {"seed": f"C17-{seed}-{i}", "n": 250 if i % 15 else 60}, "bin": "asan" if i % 15 else "memcheck"})
    for i in range(40 * k):
        out.append({"via": "exit", "case": {"seed": f"C17x-{seed}-{i}"}, "bin": "asan"})
    random.Random(str(seed)).shuffle(out)
    return out


def run_case(case, ctx):
    m = case["via"]
    program = ctx["bin"]["asan"] if case["bin"] == "asan" else memcheck(ctx)
    c2 = dict(ctx, bin={"plain": program})
    fuse.COLLECT = []
    try:
        if m == "raw":
            r = raw.run_raw(case["case"], c2)
        elif m == "exit":
            r = unmount_busy(case["case"], c2)
        elif m == "conc":
            r = run_conc(dict(case["case"]), c2, kinds=("dead", "hang"), timeout=90.0)
        else:
            r = importlib.import_module("checks." + m).run_case(case["case"], c2)
        reports = [x for x in fuse.COLLECT if ours(x)]
    finally:
        fuse.COLLECT = None
    out = {k: r[k] for k in ("stats", "compared", "requests", "sig", "error", "ops") if k in r}
    out["sig"] = m + str(out.get("sig", case["case"].get("seed")))
    out["tags"] = [m + ":" + t for t in r.get("tags", [])] + [m]
    out["extra"] = {"with_address_sanitizer": int(case["bin"] == "asan"), "with_memcheck": int(case["bin"] != "asan")}
    v = r.get("violation")
    if reports:
        out["violation"] = {"kind": "sanitizer." + name(reports[0]), "detail": reports[0][:6000]}
    elif v and {"dead", "hang"} & set(v["kind"].split(".")):
        out["violation"] = v
        out["log"] = r.get("log", "")
        if "confirm_runs" in r:
            out["confirm_runs"] = r["confirm_runs"]
    if "violation" in out:
        out["case"] = dict(case, case=r.get("case", case["case"]))
    return out


def unmount_busy(case, ctx):
    """The unmount comes while commands are waiting on the pipe and operations are in progress."""
    r = random.Random(case["seed"])
    fs = fuse.LazyFS(ctx["bin"]["plain"], base=ctx["base"])
    out = {"stats": {"unmount": 1}, "tags": [], "sig": case["seed"]}
    try:
        if not fs.start({"manual": r.choice(((4096, 4096, 64), (512, 512, 4))), "eviction": r.random() < 0.5, "logops": r.random() < 0.5}):
            raise fuse.Dead("lazyfs did not start")
        hs = [fs.create("/" + n) for n in "abc"]
        for h in hs:
            fs.write(h, 0, b"x" * r.randrange(1, 20000))
        lines = []
        for i in range(r.randrange(1, 80)):
            lines.append(r.choice((f"torn-op::file={fs.root}/a::parts=3::persist=1,2::occurrence={9 + i}", "clear-cache", "cache-checkpoint",
                                   "unsynced-data-report", "display-cache-usage", "help", "nothing",
                                   f"crash::timing=before::op=rename::from_rgx=zz{i}",
                                   f"torn-seq::op=write::file={fs.root}/b{i}::persist=1,2::occurrence=2")))
        fs.pipe("".join(f"lazyfs::{x}\n" for x in lines).encode())
        for _ in range(r.choice((0, 0, 1, 6))):
            h = r.choice(hs)
            fs.send(fuse.READ, h.node, fs.read_body(h, 0, 131072)) if r.random() < 0.7 else fs.send(
                fuse.FSYNC, h.node, struct.pack("<QII", h.fh, 0, 0))
        fs.stop()
        out["tags"] = [f"commands waiting/{len(lines) // 20}"]
        if fs.exit not in (0, 8):            # 8: the connection was closed
            out["violation"] = {"kind": "dead.exit", "detail": f"unmounting ended with {fs.exit}: {fs.log()[-800:]}"}
    except (fuse.Dead, BrokenPipeError) as e:
        out["violation"] = {"kind": "dead", "detail": f"{e}: {fs.log()[-800:]}"}
    finally:
        fs.close()
    out.update(compared=1, requests=fs.requests)
    return out


def memcheck(ctx):
    """The plain program under memcheck."""
    p = ctx["base"] + "/memcheck"
    if not os.path.exists(p):
        tmp = f"{p}.{os.getpid()}"
        with open(tmp, "w") as f:
            f.write(f'#!/bin/sh\nexec valgrind -q --num-callers=25 --log-file="$HOME/san.vg.%p" {ctx["bin"]["plain"]} "$@"\n')
        os.chmod(tmp, 0o755)
        os.rename(tmp, p)
    return p


def ours(text):
    """Reports of memcheck in which a function of lazyfs takes part."""
    return "Sanitizer" in text or "runtime error" in text or re.search(r"==\d+==\s+(?:at|by) 0x[0-9A-F]+: .*\([\w.-]+\.[ch]pp:\d+\)", text)


def name(text):
    m = re.search(r"(?:ERROR: \w+: |runtime error: |^==\d+== )([^\n]*)", text)
    return re.sub(r"[^a-z]+", "-", m.group(1).split(" on ")[0].lower())[:40] if m else "report"
