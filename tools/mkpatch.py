#!/usr/bin/env python3
"""tools/mkpatch.py <id> <file> <<< 'old\n====\nnew': writes seeded/<id>/patch.diff (several file blocks separated by a line '@@@@ path')."""
import sys, subprocess, os
id = sys.argv[1]; wt = "/tmp/wt"
subprocess.run(["git", "-C", wt, "checkout", "-q", "--", "."], check=True)
for block in sys.stdin.read().split("@@@@ ")[1:]:
    path, rest = block.split("\n", 1)
    old, new = rest.split("\n====\n")
    new = new.rstrip("\n"); old = old.strip("\n")
    p = f"{wt}/{path.strip()}"; s = open(p).read()
    assert s.count(old) == 1, (path, s.count(old), old)
    open(p, "w").write(s.replace(old, new.lstrip("\n")))
d = f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
out = subprocess.run(["git", "-C", wt, "diff"], check=True, capture_output=True, text=True).stdout
open(f"{d}/patch.diff", "w").write(out)
subprocess.run(["git", "-C", wt, "checkout", "-q", "--", "."], check=True)
print(len(out.splitlines()), "lines")
