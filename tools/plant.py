"""plant.py ID PROP FILE <<< JSON-ish spec : helper used from python: plant(id, prop, edits, demo, needs, breaks)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def plant(id, prop, edits, demo, needs, breaks):
    bug = "/tmp/bug"
    subprocess.run(["git", "-C", bug, "fetch", "-q", os.environ.get("PLANT_SRC", "/repo"), "HEAD"], check=True)
    subprocess.run(["git", "-C", bug, "checkout", "-q", "-f", "FETCH_HEAD"], check=True)
    for f, old, new in edits:
        p = os.path.join(bug, "src/oidcop", f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    subprocess.run(["bash", os.path.join(V, "tools/newbug.sh"), id], check=True)
    d = os.path.join(V, "seeded", id)
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("planted", id)
