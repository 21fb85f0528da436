"""Development helper: which removed lines of the planted bugs are the original repository's."""
import re, subprocess, sys, glob, os
base = subprocess.check_output("git -C /repo rev-list --max-parents=0 HEAD", shell=True, text=True).strip()
for d in sorted(glob.glob("/verif/seeded/*")):
    f = None; res = []
    for l in open(d + "/patch.diff"):
        if l.startswith("--- a/"): f = l[6:].strip()
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m.group(1)); continue
        if f is None or l.startswith(("---", "+++", "diff", "index")): continue
        if l.startswith("+"): continue
        if l.startswith("-"):
            b = subprocess.check_output(["git", "-C", "/repo", "blame", "-l", "-L", "%d,%d" % (n, n), "HEAD", "--", f], text=True).split()[0].lstrip("^")
            res.append(base.startswith(b))
        n += 1
    print(os.path.basename(d), res)
