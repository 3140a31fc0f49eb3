"""Changes of one file through several of its names at once.

To the kernel every hard link is an inode of its own, so its locks do not keep these apart. What overlaps here gives the same file in
every order: writes of separate ranges, truncates that only grow the file, syncs, more names and fewer names.
"""
import os
import random

from . import fuse
from .session import Violation, describe, pattern
from .shimctl import Shim

GEOMS = [(512, 512, 4096), (4096, 4096, 512), (512, 2048, 1024), (64, 256, 4096), (1000, 1000, 1024), (16384, 16384, 128)]


def cases(tag, tier, seed, quick, thorough):
    return [{"kind": "twins", "seed": f"{tag}t-{seed}-{i}", "manual": GEOMS[i % len(GEOMS)], "names": 2 + i // 6 % 3, "eviction": bool(i // 18 % 2)}
            for i in range(quick if tier == "quick" else thorough)]


def run_case(case, ctx, variant="plain", san=None):
    r = random.Random(case["seed"])
    bs = case["manual"][0]
    fs = fuse.LazyFS(ctx["bin"][variant], base=ctx["base"], timeout=40.0)
    shim = Shim(ctx["shim"], fs.work, fs.root)
    fs.env.update(shim.env)
    out = {"tags": [], "stats": {"twins": 1}, "compared": 0, "sig": case["seed"], "extra": {"overlapping_pairs": 0}}
    try:
        if not fs.start({"manual": case["manual"], "eviction": case["eviction"]}):
            raise fuse.Dead("lazyfs did not start")
        fs.close_handle(fs.create("/a"))
        names = ["/a"]
        for i in range(case["names"] - 1):
            names.append(f"/{i}")
            fs.link("/a", names[-1])
        hs = [fs.open(n) for n in names]
        dirs = {}
        for i in range(5):
            fs.mkdir(f"/d{i}")
            dirs[f"/d{i}"] = fs.resolve(f"/d{i}")[0]
        spare, count = {}, 0                      # folder -> the further name in it
        data, disk, seed = b"", b"", 0
        shim.delays(r.choice((100, 500, 1500)), r.choice((100, 500)), r.choice((0, 100, 400)))
        for rnd in range(12):
            edges = sorted({bs * r.randrange(12) + r.choice((0, 0, 1, bs // 2, bs - 1)) for _ in range(7)} | {len(data)})
            ranges = [(a, b) for a, b in zip(edges, edges[1:]) if b > a]
            r.shuffle(ranges)
            want, end, us, did = bytearray(data), len(data), [], []
            top = max([b for a, b in ranges] + [end])
            order = list(range(len(hs)))
            for step in range(r.choice((1, 1, 2, 3))):
                r.shuffle(order)
                free, later = sorted(dirs), []
                alike = r.random()                # now and then all names at once, or as many as there is room for
                for _ in range(r.choice((0, 0, 1, 2, 3)) if alike < 0.6 else 5):
                    if not free:
                        break
                    d = free.pop(r.randrange(len(free)))
                    if alike > 0.8 and d not in spare or 0.6 < alike < 0.7 and d in spare:
                        continue
                    e = next((x for x in free if x not in spare), None)
                    if d not in spare:
                        count += 1
                        h = r.choice(hs)
                        us.append(("link", fs.send(fuse.LINK, dirs[d], fuse.struct.pack("<Q", h.node) + b"n%d\0" % count), 0))
                        later.append((d, f"n{count}"))
                    elif e and r.random() < 0.5 and not any(x[0] == "rename" for x in us):
                        free.remove(e)
                        count += 1
                        us.append(("rename", fs.send(fuse.RENAME, dirs[d], fuse.struct.pack("<Q", dirs[e]) + spare[d].encode() + b"\0n%d\0" % count), 0))
                        later += [(d, None), (e, f"n{count}")]
                    else:
                        us.append(("unlink", fs.send(fuse.UNLINK, dirs[d], spare[d].encode() + b"\0"), 0))
                        later.append((d, None))
                    did.append((us[-1][0], d))
                for i in order:
                    h = hs[i]
                    k = r.choice(("write", "write", "write", "write", "write", "fsync", "grow", "read"))
                    if k == "write" and ranges:
                        a, b = ranges.pop()
                        a = r.randrange(a, b) if r.random() < 0.3 else a
                        b = min(b, a + 131072, a + r.choice((b - a, bs, 2 * bs, 7)))
                        seed += 1
                        d = pattern(seed, b - a)
                        want += bytes(max(0, b - len(want)))
                        want[a:b] = d
                        us.append((k, fs.send(fuse.WRITE, h.node, fs.write_body(h, a, d)), b - a))
                        did.append((k, names[i], a, b))
                    elif k == "fsync":
                        us.append((k, fs.send(fuse.FSYNC, h.node, fuse.struct.pack("<QII", h.fh, r.randrange(2), 0)), 0))
                        did.append((k, names[i]))
                    elif k == "grow" and not any(x[0] == k for x in us):
                        size = top = top + r.randrange(3 * bs)
                        want += bytes(max(0, size - len(want)))
                        us.append((k, fs.send(fuse.SETATTR, h.node, fs.setattr_body(fuse.FATTR_SIZE, size=size)), 0))
                        did.append((k, names[i], size))
                    elif k == "read":
                        us.append((k, fs.send(fuse.READ, h.node, fs.read_body(h, bs * r.randrange(9), bs)), 0))
                for k, u, n in us:
                    try:
                        d = fs.wait(u)
                    except fuse.FuseError as e:
                        raise Violation("conc.error", f"a {k} failed ({e}) when {did} overlapped; {fs.log()[-300:]}")
                    if k == "write" and fuse.struct.unpack_from("<I", d)[0] != n:
                        raise Violation("conc.write", f"a write of {n} bytes was answered with {d[:4].hex()}")
                out["extra"]["overlapping_pairs"] += len(us) * (len(us) - 1) // 2
                us = []
                for d, n in later:
                    spare.pop(d, None)
                    if n:
                        spare[d] = n
            data = bytes(want)
            what = f"after {did} at the same time (blocks of {bs}) "
            for n, h in zip(names, hs):
                a = fs.stat(n)
                size = a.size
                if a.nlink != len(names) + len(spare):
                    raise Violation("conc.nlink", what + f"{n} has {a.nlink} links, the names are {names + sorted(spare.items())}")
                if size != len(data):
                    raise Violation("conc.size", what + f"{n} has size {size}, expected {len(data)}")
                got = fs.read_all(h, size)
                out["compared"] += 2
                if got != data:
                    raise Violation("conc.final", what + f"{n} {describe(got, data)}")
            for d, n in spare.items():
                if r.random() < 0.5:
                    h = fs.open(f"{d}/{n}", os.O_RDONLY)
                    got = fs.read_all(h, len(data))
                    fs.close_handle(h)
                    out["compared"] += 1
                    if got != data:
                        raise Violation("conc.final", what + f"{d}/{n} {describe(got, data)}")
            if r.random() < 0.5:
                fs.fsync(r.choice(hs))
                disk = data
                with open(fs.root + r.choice(names), "rb") as f:
                    got = f.read()
                out["compared"] += 1
                if got != disk:
                    raise Violation("conc.disk", what + f"and a sync the backing file has {describe(got, disk)}")
                if r.random() < 0.3:
                    fs.clear_cache()
            out["tags"].append("twins/" + ",".join(sorted({d[0] for d in did})))
    except Violation as v:
        out["violation"] = {"kind": v.kind, "detail": v.detail}
    except fuse.Hang as e:
        out["violation"] = {"kind": "hang", "detail": str(e)}
        out["confirm_runs"] = 3
    except (fuse.Dead, fuse.FuseError) as e:
        out["violation"] = {"kind": "dead", "detail": f"{type(e).__name__} {e} {fs.log()[-800:]}"}
    finally:
        if san:
            fs.kill()
            bad = san(fs.reports())
            if bad:
                out["violation"] = {"kind": bad[0], "detail": bad[1]}
        out["requests"] = fs.requests
        out["extra"]["injected_pauses"] = shim.delayed()
        shim.close()
        fs.close()
    return out
