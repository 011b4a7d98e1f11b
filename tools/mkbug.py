#!/usr/bin/env python3
"""mkbug.py ID PROP FILE  (reads OLD/NEW blocks from stdin separated by lines '=====' / '-----'): writes seeded/ID/patch.diff from worktree /tmp/wt"""
import sys, subprocess, json, os
id, prop, needs, what = sys.argv[1:5]
d = f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
subprocess.check_call("git -C /tmp/wt checkout -q -- . && git -C /tmp/wt checkout -q --detach $(git -C /repo rev-parse HEAD)", shell=True)
cur = None
spec = sys.stdin.read()
for part in spec.split("@@@@ ")[1:]:
    f, rest = part.split("\n", 1)
    old, new = rest.split("\n=====\n")
    new = new.rstrip("\n")
    p = f"/tmp/wt/crates/{f.strip()}"
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old))
    open(p, "w").write(s.replace(old, new))
diff = subprocess.check_output("git -C /tmp/wt diff", shell=True, text=True)
open(f"{d}/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(f"{d}/meta.json", "w"), indent=1)
subprocess.check_call("git -C /tmp/wt checkout -q -- .", shell=True)
