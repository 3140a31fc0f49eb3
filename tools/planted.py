#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what a check had to learn before it saw the change
LEARNED = {
    "cache-full-early": "needed the brim family: C04 did not fill the cache to its last page",
    "clear-needs-file-alone": "needed faults of other kinds on the file of a clear-cache injection",
    "done-pipe-denied": "needed pipes that cannot be made",
    "leak-on-failed-write": "needed the cases with failing backing calls: C22 only had operations that succeed",
    "one-fault-any-kind": "needed faults of several kinds on one file",
    "sectors-of-full-blocks": "the sector count was compared with a whole block of slack, now exactly",
    "sync-offset-int": "needed the far family: no file reached 2^31 bytes",
}


def main():
    rows = []
    for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
        i = f.split("/")[-2]
        m = json.load(open(f))
        rows.append(f"| `{i}` | {m['property']} | {m['needs']} | {LEARNED.get(i, '')} |")
    t = open(V + "/DESIGN.md").read()
    table = "<!-- planted -->\n| change | caught by | needs | what the check had to learn |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /planted -->"
    t = re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: table, t, flags=re.S)
    open(V + "/DESIGN.md", "w").write(t)


main()
