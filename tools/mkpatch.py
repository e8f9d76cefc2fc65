#!/usr/bin/env python3
"""mkpatch.py ID FILE <<< 'old\n====\nnew' : writes seeded/ID/patch.diff for one textual replacement in /repo (which is left as it was)."""
import sys, subprocess, os
id, file = sys.argv[1:3]
old, new = sys.stdin.read().split("\n====\n")
new = new.rstrip("\n")
p = f"/repo/{file}"
s = open(p).read()
assert s.count(old) == 1, s.count(old)
assert subprocess.run(["git","-C","/repo","status","--porcelain","-uno"],capture_output=True,text=True).stdout == "", "dirty"
open(p, "w").write(s.replace(old, new))
d = subprocess.run(["git","-C","/repo","diff"],capture_output=True,text=True).stdout
os.makedirs(f"/verif/seeded/{id}", exist_ok=True)
mode = "a" if len(sys.argv) > 3 else "w"
open(f"/verif/seeded/{id}/patch.diff", mode).write(d)
subprocess.run(["git","-C","/repo","checkout","-q","--","."])
