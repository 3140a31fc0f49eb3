"""Builds lazyfs (libpcache's and lazyfs's sources together) from /repo's working tree, one program per variant.

The result lives under /verif/.build, keyed by the content of every source and header, the flags and the compiler,
so a changed tree is always built again.  /repo itself is never written to.
"""

import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, ".build")

BASE = ["-std=c++17", "-w", "-g1", "-fno-omit-frame-pointer", "-pthread",
        f"-I{REPO}/lazyfs/include", f"-I{REPO}/libs/libpcache/include", "-I/usr/include/fuse3",
        "-DSPDLOG_FMT_EXTERNAL"]
SHARED_LOG = ["-DSPDLOG_COMPILED_LIB", "-DSPDLOG_SHARED_LIB"]

VARIANTS = {
    # locals start out as rubbish: what is read before it was written shows
    "plain": dict(cxx="g++", flags=["-O0", "-ftrivial-auto-var-init=pattern"] + SHARED_LOG, link=["-lspdlog"]),
    "asan": dict(cxx="g++", flags=["-O0", "-fsanitize=address,bounds,null,alignment,shift,signed-integer-overflow,"
                                   "integer-divide-by-zero,vla-bound,bool,enum,return",
                                   "-fno-sanitize-recover=all",
                                   "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR"] + SHARED_LOG,
                 link=["-lspdlog"]),
    "tsan": dict(cxx="g++", flags=["-O0", "-fsanitize=thread"], link=[]),
}


class BuildError(Exception):
    pass


def sources():
    src = sorted(glob.glob(f"{REPO}/libs/libpcache/src/**/*.cpp", recursive=True)
                 + glob.glob(f"{REPO}/lazyfs/src/**/*.cpp", recursive=True))
    hdr = sorted(p for ext in ("h", "hpp", "hh", "ipp", "inl", "tpp")
                 for d in (f"{REPO}/libs/libpcache", f"{REPO}/lazyfs")
                 for sub in ("include", "src")
                 for p in glob.glob(f"{d}/{sub}/**/*.{ext}", recursive=True))
    return src, hdr


def _key(variant):
    v = VARIANTS[variant]
    h = hashlib.sha256()
    h.update(repr((v, BASE)).encode())
    src, hdr = sources()
    for p in src + hdr:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read() + b"\0")
    return h.hexdigest()[:20]


def build(variant="plain", jobs=8):
    """Returns the program's path; raises BuildError with the compiler's words."""
    os.makedirs(OUT, exist_ok=True)
    key = _key(variant)
    final = f"{OUT}/lazyfs-{variant}-{key}"
    if os.path.exists(final):
        return final
    for old in glob.glob(f"{OUT}/lazyfs-{variant}-*"):
        if os.path.isfile(old):
            os.unlink(old)
    v = VARIANTS[variant]
    tmp = f"{OUT}/tmp-{variant}-{os.getpid()}"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    src, _ = sources()
    t0 = time.time()

    def one(arg):
        i, p = arg
        o = f"{tmp}/{i}.o"
        cache = os.environ.get("VERIF_OBJECTS")           # for tools/mutate.py, where most sources stay as they are
        if cache:
            h = hashlib.sha256(repr((v, BASE, p)).encode())
            for q in [p] + sources()[1]:
                with open(q, "rb") as f:
                    h.update(f.read() + b"\0")
            o = f"{cache}/{h.hexdigest()[:24]}.o"
            if os.path.exists(o):
                return o
        r = subprocess.run([v["cxx"]] + BASE + v["flags"] + ["-c", p, "-o", o],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError(f"{p}:\n" + r.stdout.decode(errors="replace")[-4000:])
        return o

    try:
        order = sorted(enumerate(src), key=lambda x: -os.path.getsize(x[1]))
        with ThreadPoolExecutor(jobs) as ex:
            objs = list(ex.map(one, order))
        san = [f for f in v["flags"] if f.startswith("-fsanitize")]
        r = subprocess.run([v["cxx"]] + san + objs + ["-o", f"{tmp}/lazyfs", "-pthread", "-lfuse3"]
                           + v["link"] + ["-lfmt"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("link:\n" + r.stdout.decode(errors="replace")[-4000:])
        os.chmod(f"{tmp}/lazyfs", 0o755)
        os.rename(f"{tmp}/lazyfs", final)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(f"built {variant} in {time.time() - t0:.1f} s", file=sys.stderr)
    return final


def build_shim():
    """The preloaded library that injects failures and delays into the calls lazyfs makes on the backing files."""
    src = os.path.join(VERIF, "vlib", "shim.c")
    with open(src, "rb") as f:
        key = hashlib.sha256(f.read()).hexdigest()[:20]
    os.makedirs(OUT, exist_ok=True)
    final = f"{OUT}/shim-{key}.so"
    if not os.path.exists(final):
        tmp = f"{final}.{os.getpid()}"
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-pthread", "-o", tmp, src, "-ldl"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError(r.stdout.decode(errors="replace"))
        os.rename(tmp, final)
    return final


if __name__ == "__main__":
    for name in sys.argv[1:] or ["plain"]:
        print(build_shim() if name == "shim" else build(name))
