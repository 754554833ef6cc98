"""Replays solver models on the real, uninstrumented implementation (run with the repo's python).

usage: python -m engine.replay CASES.json OUT.jsonl        batch (used by the checks)
       python -m engine.replay REPLAY.json                 one counterexample, human readable
"""
import gc
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, "src"))
sys.path.insert(1, HERE)

import logging  # noqa

logging.disable(logging.CRITICAL)


def run_case(h, state, inputs, params, known):
    from engine import env
    from engine.concrete import ConcCtx
    from engine.concrete import Infeasible
    from engine.concrete import Stop

    env.clock.now = env.BASE
    ctx = ConcCtx(inputs, params, known)
    status, err = "ok", None
    try:
        h.fn(ctx, state)
    except Stop:
        pass
    except Infeasible:
        status = "infeasible"
    except Exception:
        status, err = "error", traceback.format_exc()[-3000:]
    return {
        "status": status, "error": err, "labels": ctx.labels, "violations": ctx.violations,
        "known": ctx.known_hits, "trace": repr(ctx.traces)[:4000],
    }


def load(modname, hname):
    from engine import env

    mod = importlib.import_module(modname)
    h = [x for x in mod.HARNESSES if x.name == hname][0]
    env.patch_clock()
    state = h.setup() if h.setup else None
    env.patch_clock()
    return h, state


def main():
    spec = json.load(open(sys.argv[1]))
    h, state = load(spec["module"], spec["harness"])
    known = set(spec.get("known", []))
    if len(sys.argv) == 2:
        r = run_case(h, state, spec["inputs"], spec.get("params", {}), known)
        print(json.dumps({"inputs": spec["inputs"], "label": spec.get("label"), "result": r}, indent=1))
        return 1 if r["violations"] else 0
    gc.freeze()
    out = os.open(sys.argv[2], os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    for case in spec["cases"]:
        pid = os.fork()
        if pid == 0:
            try:
                r = run_case(h, state, case["inputs"], spec.get("params", {}), known)
                r["i"] = case["i"]
                os.write(out, (json.dumps(r) + "\n").encode())
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
    return 0


if __name__ == "__main__":
    sys.exit(main())
