"""For each planted bug: whether the lines it removes are the original repository's (not added by our own commits)."""
import re, subprocess, sys, os
R = "/repo"; root = subprocess.check_output(["git", "-C", R, "log", "--reverse", "--format=%H"], text=True).split()
base = "^"
for d in sorted(sys.argv[1:] or os.listdir("/verif/seeded")):
    orig = own = 0; added = 0
    for f in subprocess.check_output(["cat", f"/verif/seeded/{d}/patch.diff"], text=True).split("diff --git ")[1:]:
        name = re.search(r"^--- a/(\S+)", f, re.M).group(1)
        bl = subprocess.check_output(["git", "-C", R, "blame", "-s", name], text=True).splitlines()
        n = 0
        for line in f.splitlines():
            m = re.match(r"@@ -(\d+)", line)
            if m: n = int(m.group(1)); continue
            if line.startswith("---") or line.startswith("+++") or not n: continue
            if line.startswith("-"):
                if bl[n - 1].startswith("^"): orig += 1
                else: own += 1
                n += 1
            elif line.startswith("+"): added += 1
            elif line.startswith(" "): n += 1
    print(f"{d}: original {orig} own {own} added {added}")
