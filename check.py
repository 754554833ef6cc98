#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [-v]

Decides one property: symbolic execution of the implementation's current source, every solver model
replayed on the uninstrumented implementation.  Exit 0 held, 1 VIOLATION, 2 error of the check.
"""
import sys

sys.dont_write_bytecode = True
import warnings

warnings.filterwarnings('ignore')
import argparse
import importlib
import json
from collections import Counter
import os
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
sys.path.insert(1, HERE)
sys.path.append("/opt/venv/lib/python3.12/site-packages")
REAL_PY = "/opt/venv/bin/python"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def load_known(prop):
    out, fixed = {}, []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            if line.startswith("known:"):
                # known: property=C01 id=KF01 <what fails>
                parts = line.split(None, 3)
                pid = parts[1].split("=")[1]
                kid = parts[2].split("=")[1]
                if pid == prop:
                    out[kid] = parts[3]
    return out


def replay_batch(module, hname, params, known, cases, scratch):
    """Run cases on the real implementation; returns {i: result}."""
    procs, outs = [], []
    n = min(JOBS, max(1, (len(cases) + 7) // 8))
    for w in range(n):
        chunk = cases[w::n]
        if not chunk:
            continue
        spec = os.path.join(scratch, "%s_%d.json" % (hname, w))
        out = os.path.join(scratch, "%s_%d.out" % (hname, w))
        json.dump({"module": module, "harness": hname, "params": params, "known": sorted(known), "cases": chunk},
                  open(spec, "w"))
        env = dict(os.environ, PYTHONHASHSEED="0")
        procs.append(subprocess.Popen([REAL_PY, "-m", "engine.replay", spec, out], cwd=HERE, env=env,
                                      stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
        outs.append(out)
    res, errs = {}, []
    for p, o in zip(procs, outs):
        try:
            _, e = p.communicate(timeout=300)
        except subprocess.TimeoutExpired:
            p.kill()
            _, e = p.communicate()
            errs.append("replay timeout")
        if p.returncode:
            errs.append(e.decode()[-2000:])
        if os.path.exists(o):
            for line in open(o):
                r = json.loads(line)
                res[r["i"]] = r
    return res, errs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-replay", action="store_true")
    args = ap.parse_args()
    if args.selftest:
        import z3

        x = z3.Int("x")
        sol = z3.Solver()
        sol.add(x > 3, x < 5)
        ok = sol.check() == z3.sat and subprocess.run([REAL_PY, "-c", "import cryptojwt, oidcmsg"]).returncode == 0
        print("selftest", "ok" if ok else "FAILED")
        return 0 if ok else 2
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t_start = time.monotonic()
    import logging

    logging.disable(logging.CRITICAL)

    from engine import instrument

    instrument.install({"oidcop": True, "oidcmsg": False, "harness": False})
    import z3

    z3.set_param("smt.random_seed", seed)
    from engine import env, rt, symenv, explore  # noqa

    import gc

    modname = "harness.%s" % args.prop
    mod = importlib.import_module(modname)
    symenv.install()
    env.patch_clock()
    known = load_known(args.prop)
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % args.prop)
    tok_r, tok_w = os.pipe()
    os.set_blocking(tok_r, False)
    os.write(tok_w, b"." * (JOBS - 1))

    tot = dict(states=0, transitions=0, queries=0, checks=0, unsat=0, unknown=0, solver_time=0.0)
    funcs, samples, problems, violations, known_hits = set(), [], [], [], {}
    fatal = []
    validated = diverged = 0
    harness_report = []
    truncated = {}
    states = {}
    for h in mod.HARNESSES:
        if args.only and h.name != args.only:
            continue
        params = h.params[tier]
        if h.setup not in states:
            states[h.setup] = h.setup() if h.setup else None
            env.patch_clock()
        gc.collect()
        gc.freeze()
        recs, wall = explore.explore(h.fn, states[h.setup], params, set(known), (tok_r, tok_w),
                                     h.deadline[tier], h.max_paths[tier])
        # refill the token pool in case a process died holding one
        drained = 0
        try:
            while os.read(tok_r, 1):
                drained += 1
        except BlockingIOError:
            pass
        os.write(tok_w, b"." * (JOBS - 1))
        paths = [r for r in recs if r["t"] == "path"]
        live = [r for r in paths if r["status"] != "infeasible"]
        st = {}
        for r in paths:
            st[r["status"]] = st.get(r["status"], 0) + 1
            s = r.get("stats") or {}
            for k in ("queries", "checks", "unsat", "unknown"):
                tot[k] += s.get(k, 0)
            tot["solver_time"] += s.get("solver_time", 0.0)
            tot["transitions"] += s.get("decisions", 0)
            funcs.update(r.get("funcs", ()))
            for x in r.get("truncated", ()):
                truncated[x] = truncated.get(x, 0) + 1
        tot["states"] += len(live)
        limits = {}
        for r in paths:
            for l in r.get("limits", ()):
                limits[l] = limits.get(l, 0) + 1
        labels = {}
        for r in live:
            for l in r["labels"]:
                labels[l] = labels.get(l, 0) + 1
        cex = [r for r in recs if r["t"] == "violation"]
        for r in recs:
            if r["t"] == "known":
                known_hits.setdefault(r["id"], []).append((h.name, r))
        for r in paths:
            if r["status"] == "engine_error":
                problems.append("%s: engine error: %s" % (h.name, r.get("error")))
        budget = any(x in ("deadline", "max_paths") for r in paths for x in r.get("truncated", ()))
        # ---- replays: every counterexample (up to 12 per label) and passing paths ------------
        cases = []
        per = {}
        for r in cex:
            per[r["label"]] = per.get(r["label"], 0) + 1
            if per[r["label"]] <= 12:
                cases.append({"i": len(cases), "inputs": r["inputs"], "kind": "cex", "label": r["label"]})
        ok_paths = [r for r in live if r["status"] in ("ok",) and "inputs" in r]
        cap = 400 if tier == "quick" else 3000
        step = max(1, len(ok_paths) // cap)
        for r in ok_paths[::step]:
            cases.append({"i": len(cases), "inputs": r["inputs"], "kind": "ok", "labels": r["labels"]})
        # paths the engine could not finish are still decided concretely at one point each
        for r in [x for x in live if x["status"] in ("truncated", "engine_error") and "inputs" in x][:100]:
            cases.append({"i": len(cases), "inputs": r["inputs"], "kind": "partial", "labels": r["labels"]})
        res, errs = ({}, []) if args.no_replay else replay_batch(modname, h.name, params, known, cases, scratch)
        fatal += ["%s: replay: %s" % (h.name, e) for e in errs]
        confirmed = {}
        unconfirmed = {}
        for c in cases:
            rr = res.get(c["i"])
            if rr is None:
                continue
            validated += 1
            for kid, lab in rr["known"]:
                known_hits.setdefault(kid, []).append((h.name, {"inputs": c["inputs"], "label": lab}))
            if rr["violations"]:
                for lab in rr["violations"]:
                    if lab not in confirmed:
                        confirmed[lab] = (c, rr)
            elif c["kind"] == "cex":
                unconfirmed.setdefault(c["label"], (c, rr))
            elif c["kind"] == "ok" and (rr["labels"] != c["labels"] or rr["status"] != "ok"):
                diverged += 1
                if diverged <= 5 or args.v:
                    print("DIVERGENCE %s: sym=%s real=%s %s %s" % (
                        h.name, c["labels"], rr["labels"], rr["status"], (rr["error"] or "")[-600:]))
                    if args.v:
                        print("   inputs", c["inputs"])
        for lab, (c, rr) in confirmed.items():
            violations.append((h, lab, c, rr, params))
        for lab, (c, rr) in unconfirmed.items():
            if lab not in confirmed:
                problems.append("%s: counterexample for '%s' did not reproduce: inputs=%s real=%s" % (
                    h.name, lab, json.dumps(c["inputs"])[:1500], json.dumps(rr)[:1500]))
        missing = [c for c in h.covers if "@" + c not in labels]
        if missing and not violations and not budget:
            fatal.append("%s: vacuous: never reached %s" % (h.name, missing))
        for r in ok_paths[:2]:
            samples.append({"harness": h.name, "inputs": r["inputs"], "labels": r["labels"]})
        harness_report.append({
            "harness": h.name, "paths": len(live), "status": st, "wall_s": round(wall, 2), "bounds": h.bounds,
            "params": params, "limits": limits, "truncated": dict(Counter(x for r in paths for x in r.get("truncated", ()))),
            "exhaustive_within_bounds": not budget and not any(
                r["status"] in ("truncated", "engine_error") for r in paths) and not any(
                l.startswith(("unknown-check", "engine:")) for l in limits),
            "reached": {k[1:]: v for k, v in labels.items() if k.startswith("@")},
        })
        if args.v or args.only:
            print(json.dumps(harness_report[-1], indent=1))
    # ---- verdict -------------------------------------------------------------------------
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    rc = 0
    for n, (h, lab, c, rr, params) in enumerate(violations):
        p = os.path.join(rdir, "%s-%d.json" % (args.prop, n))
        json.dump({"property": args.prop, "module": modname, "harness": h.name, "label": lab, "params": params,
                   "known": sorted(known), "inputs": c["inputs"], "observed": rr,
                   "how": "cd /verif && /opt/venv/bin/python -m engine.replay %s" % p}, open(p, "w"), indent=1)
        print("counterexample %s/%s: %s\n   inputs: %s\n   trace: %s" % (
            args.prop, h.name, lab, json.dumps(c["inputs"])[:1500], rr["trace"][:1500]))
        print("VIOLATION property=%s replay=%s" % (args.prop, p))
        rc = 1
    for kid, what in known.items():
        if kid in known_hits:
            print("KNOWN-FINDING: property=%s %s: %s" % (args.prop, kid, what))
        else:
            print("note: known finding %s of %s was not observed on this run" % (kid, args.prop))
    # A path the engine could not finish, or a model the real code refutes, decides nothing: it is reported and
    # the run is not called exhaustive; the run only fails when nothing useful was explored.
    if rc == 0 and (fatal or validated == 0):
        rc = 2
    for p in problems[:8]:
        print("INCONCLUSIVE " + p)
    for p in fatal[:8]:
        print("PROBLEM " + p)
    ev = {
        "property": args.prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["states"], "transitions": tot["transitions"],
            "traces_validated_against_impl": validated, "samples": samples[:6],
            "explanation": "states = feasible symbolic paths, transitions = forking decisions, "
                           "traces_validated_against_impl = solver models replayed on the uninstrumented code",
            "queries_discharged": tot["queries"], "assertions": tot["checks"], "assertions_proved": tot["unsat"],
            "solver_unknown": tot["unknown"], "solver_time_s": round(tot["solver_time"], 2),
            "functions_encoded": sorted(funcs), "harnesses": harness_report, "replay_divergences": diverged,
            "truncated_paths": truncated,
            "inconclusive": [x[:600] for x in problems[:20]],
            "exhaustive": not problems and all(r["exhaustive_within_bounds"] for r in harness_report),
            "known_findings_observed": sorted(known_hits),
        },
        "assumptions": sorted({a for h in mod.HARNESSES for a in h.assumptions} | set(getattr(mod, "ASSUMPTIONS", []))),
        "wall_s": round(time.monotonic() - t_start, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not args.only:
        json.dump(ev, open(os.path.join(HERE, "evidence", args.prop + ".json"), "w"), indent=1)
    import shutil

    shutil.rmtree(scratch, ignore_errors=True)
    print("%s %s: %d paths, %d decisions, %d queries (%.1fs solver), %d assertions, %d replayed, %d diverged, %.1fs -> rc %d" % (
        args.prop, tier, tot["states"], tot["transitions"], tot["queries"], tot["solver_time"], tot["checks"],
        validated, diverged, ev["wall_s"], rc))
    return rc


if __name__ == "__main__":
    sys.exit(main())
