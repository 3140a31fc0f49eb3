#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below (run it after changing them)."""
import json
import os

V = os.path.dirname(os.path.abspath(__file__))
L, LH, M = "lazyfs/src/lazyfs.cpp", "lazyfs/include/lazyfs/lazyfs.hpp", "lazyfs/src/main.cpp"
C, CH = "libs/libpcache/src/cache.cpp", "libs/libpcache/include/cache/cache.hpp"
E, P = "libs/libpcache/src/engine/backends/custom/custom_cache.cpp", "libs/libpcache/src/engine/page/page.cpp"
CF, F = "libs/libpcache/src/config/config.cpp", "libs/libpcache/src/faults.cpp"
BO = "libs/libpcache/src/engine/page/block_offsets.cpp"
LP = "logparse/parse.py"

P_ = []


def prop(id, title, statement, over, text, why, files, mech, level, technique, note, state=(), observe=()):
    P_.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                   level=level, technique=technique, note=note, state=state, observe=observe))


MODEL = ("the real program is driven through its FUSE connection by random histories; an independent in-memory model is the "
         "oracle and compares after every step; 8 processes in parallel, bounded by a fixed number of histories per seed")

exec(open(os.path.join(V, "props_text.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P_:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")

checks = []
for p in P_:
    if not os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")):
        continue
    checks.append({"property": p["id"], "quick_cmd": f"VERIF_TIER=quick python3 check.py {p['id']}",
                   "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                   "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
claimed = {c["property"] for c in checks}
man = {"version": 1, "setup_cmd": "python3 vlib/build.py plain asan tsan shim", "checks": checks,
       "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in P_ if p["id"] not in claimed]}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
