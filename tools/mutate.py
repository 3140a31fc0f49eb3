#!/usr/bin/env python3
"""Mutation survey: single edits of /repo's sources, each run against samples of the checks until one reports it.

  tools/mutate.py FILE[:FROM-TO] ... [--n 50] [--seed 1] [--sample 6] [--checks C01,C03] [--only N,N] [--out LOG]

What survives is looked at by hand: equivalent, or a gap. Works in a scratch clone under /tmp, never in /repo.
"""
import argparse
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DATA = "C01 C09 C08 C03 C04 C16 C05 C07 C22 C02 C06 C20".split()
FOR = [("parse.py", ["C21"]), ("config.cpp", ["C15", "C13", "C12", "C11"]), ("faults.cpp", ["C14", "C15", "C12", "C13", "C11"]),
       ("main.cpp", ["C14", "C15", "C10", "C12", "C13", "C05", "C16"]),
       ("lazyfs.cpp", ["C01", "C07", "C11", "C10", "C12", "C13", "C02", "C08", "C03", "C09", "C04", "C20", "C16", "C05", "C14", "C22", "C21"]),
       ("", DATA)]
OPS = [(r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
       (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" and ", [" or "]), (r" or ", [" and "]), (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]),
       (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r" % ", [" / "]), (r"\btrue\b", ["false"]),
       (r"\bfalse\b", ["true"]), (r"\bif \((?!\w+ = )(.*)\) ?\{?$", None), (r"\+= ", ["-= "]), (r"-= ", ["+= "]), (r"\b0\b", ["1"]), (r"\b1\b", ["0"]),
       (r"std::max", ["std::min"]), (r"std::min", ["std::max"]), (r"\bnot ", [""]), (r"\bbreak;", ["continue;"]), (r"\bcontinue;", ["break;"]),
       (r"\.first\b", [".second"]), (r"\.second\b", [".first"]), (r"\.begin \(\)", [".end ()"]), (r"\.back \(\)", [".front ()"])]


def mutants(path, lines, lo, hi):
    out = []
    python = path.endswith(".py")
    comment = False
    for i, line in enumerate(lines):
        s = line.strip()
        if s.startswith("/*"):
            comment = True
        skip = comment or not lo <= i + 1 <= hi or s.startswith(("//", "#", "*", "cout", "printf", "import")) or "spdlog::" in s or "cout" in s
        if "*/" in s:
            comment = False
        if skip or not s:
            continue
        code = line.split("//")[0] if not python else line
        for rgx, news in OPS:
            for m in re.finditer(rgx, code):
                if code[:m.start()].count('"') % 2 or "#include" in code or "template" in code:
                    continue
                if news is None:
                    if line.count("(") != line.count(")"):
                        continue
                    for c in ("true", "false"):
                        if not python:
                            out.append((i, line[:m.start(1)] + c + line[m.end(1):]))
                    continue
                for n in news:
                    out.append((i, line[:m.start()] + n + line[m.end():]))
        # a statement of one line that is left out
        if not python and re.match(r"^\s+[\w>().:*\-\s\[\],&\"+=?<%|/!]+;\s*$", line) and not re.match(
                r"^\s*(return|break|continue|case|else|const|auto|int|string|std::|off_t|size_t|struct|bool|char|vector|map|Page|Item|Data|Metadata)\b", line):
            out.append((i, re.match(r"\s*", line).group() + ";\n"))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+")
    ap.add_argument("--n", type=int, default=50)
    ap.add_argument("--seed", default="1")
    ap.add_argument("--sample", default="6")
    ap.add_argument("--checks")
    ap.add_argument("--only")
    ap.add_argument("--repo", default="/repo")
    a = ap.parse_args()
    work = tempfile.mkdtemp(prefix="vf_mut_", dir="/tmp")
    os.mkdir(work + "/obj")
    try:
        for src, dst in ((a.repo, "repo"), (VERIF, "verif")):
            subprocess.run(["git", "clone", "-q", src, f"{work}/{dst}"], check=True)
        todo = []
        for f in a.files:
            f, _, r = f.partition(":")
            lo, hi = map(int, r.split("-")) if r else (1, 10 ** 6)
            with open(f"{work}/repo/{f}") as x:
                todo += [(f, i, new) for i, new in mutants(f, x.readlines(), lo, hi)]
        random.Random(a.seed).shuffle(todo)
        todo = list(enumerate(todo))[:a.n]
        if a.only:
            todo = [t for t in todo if str(t[0]) in a.only.split(",")]
        env = dict(os.environ, VERIF_REPO=f"{work}/repo", VERIF_SAMPLE=a.sample, VERIF_OBJECTS=work + "/obj", VERIF_SEED="1")
        for n, (f, i, new) in todo:
            path = f"{work}/repo/{f}"
            with open(path) as x:
                lines = x.readlines()
            old, lines[i] = lines[i], new
            with open(path, "w") as x:
                x.writelines(lines)
            checks = a.checks.split(",") if a.checks else next(c for k, c in FOR if k in f)
            if re.search(r"lock|mtx|guard", old) and not a.checks and not f.endswith(".py"):
                checks = ["C19", "C18"] + checks[:6]
            t0, how = time.time(), "SURVIVED"
            for c in checks:
                r = subprocess.run([sys.executable, "check.py", c], cwd=work + "/verif", env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    if "BUILD FAILED" in r.stdout:
                        how = "does not compile"
                    elif r.returncode == 1:
                        lines2 = r.stdout.splitlines()
                        how = f"{c}: " + next((x for x in lines2 if re.match(r"[a-z]\w*(\.\w+)+: ", x)), "")[:90]
                    else:
                        how = f"{c}: exit {r.returncode} " + r.stdout.strip().splitlines()[-1][:200]
                        if r.returncode == 2 and c != checks[-1]:
                            continue
                    break
            print(f"{n:3} {time.time() - t0:4.0f} s {f.split('/')[-1]}:{i + 1} | {old.strip()} => {new.strip()} | {how}", flush=True)
            subprocess.run(["git", "-C", work + "/repo", "checkout", "-q", "--", "."], check=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main()
