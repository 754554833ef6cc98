"""Exploration driver: runs one harness over all solver-feasible paths."""
import gc
import json
import mmap
import os
import signal
import sys
import tempfile
import time
import traceback

import z3

from engine import env
from engine import rt
from engine import sym
from engine.sym import CharStr
from engine.sym import K
from engine.sym import Sym
from engine.sym import SymBool
from engine.sym import SymInt
from engine.sym import SymStr
from engine.sym import mkbool
from engine.sym import zb


class Result:
    """Outcome of a captured call."""

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        return "ok" if self.exc is None else "exc:" + type(self.exc).__name__


class SymCtx:
    symbolic = True

    def __init__(self, params, known):
        self.params = params
        self.known = known

    # -- inputs -----------------------------------------------------------------------------
    def _reg(self, name, kind, v):
        if name in K.inputs:
            raise RuntimeError("duplicate input " + name)
        K.inputs[name] = (kind, v)
        K.order.append(name)

    def bool(self, name):
        v = z3.Bool(name)
        self._reg(name, "bool", v)
        return SymBool(v)

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self._reg(name, "int", v)
        if lo is not None:
            K.add(v >= lo)
        if hi is not None:
            K.add(v <= hi)
        return SymInt(v)

    def str(self, name, maxlen=12, minlen=0, lo="!", hi="~"):
        v = z3.String(name)
        self._reg(name, "str", v)
        K.add(z3.InRe(v, z3.Loop(z3.Range(lo, hi), minlen, maxlen)))
        return SymStr(v)

    def chars(self, name, maxlen, minlen=0, alphabet=None):
        """A character-level symbolic string; its length is forked on, its characters stay symbolic."""
        n = self.pick(name + "#len", list(range(minlen, maxlen + 1))) if maxlen > minlen else maxlen
        cs = []
        for i in range(n):
            c = z3.Int("%s[%d]" % (name, i))
            if alphabet is None:
                K.add(z3.And(c >= 33, c <= 126))
            elif isinstance(alphabet, tuple):
                K.add(z3.And(c >= alphabet[0], c <= alphabet[1]))
            else:
                K.add(z3.Or(*[c == ord(x) for x in alphabet]))
                K.nonascii = K.nonascii or not alphabet.isascii()
            cs.append(c)
        self._reg(name, "chars", cs)
        return sym.mkchars(cs) if cs else ""

    def pick(self, name, options):
        """Explore every option (a symbolic index, concretised by forking)."""
        options = list(options)
        if len(options) == 1:
            self._reg(name, "pick", 0)
            return options[0]
        v = z3.Int("pick!" + name)
        K.add(z3.And(v >= 0, v < len(options)))
        for i in range(len(options) - 1):
            if K.branch(v == i):
                self._reg(name, "pick", i)
                return options[i]
        self._reg(name, "pick", len(options) - 1)
        return options[-1]

    def flag(self, name):
        """A boolean decided right away (forks)."""
        return self.pick(name, [False, True])

    # -- assertions -------------------------------------------------------------------------
    def assume(self, c):
        c = z3.simplify(zb(c))
        if z3.is_true(c):
            return
        if z3.is_false(c):
            K.finish("infeasible")
        r, m = K.query(c)
        if r is False:
            K.finish("infeasible")
        K.add(c, m)

    def check(self, cond, label, known=()):
        K.stats["checks"] += 1
        c = z3.simplify(zb(cond))
        if z3.is_true(c):
            K.stats["unsat"] += 1
            return
        neg = z3.Not(c)
        for kid, kc in known:
            if kid in self.known:
                kz = zb(kc)
                r, m = K.query(z3.And(neg, kz))
                if r:
                    K.emit({"t": "known", "id": kid, "label": label, "inputs": K.values(m)})
                neg = z3.And(neg, z3.Not(kz))
        r, m = K.query(neg)
        if r is None:
            K.limits.append("unknown-check:" + label)
        elif r is False:
            K.stats["unsat"] += 1
        else:
            if label not in K.violated:
                K.violated.append(label)
                models = [K.values(m)]
                # a second, different witness helps when the first does not replay
                K.emit({"t": "violation", "label": label, "inputs": models[0], "labels": list(K.labels),
                        "trace": K.render_trace(m)})
        if known or r:
            r2, m2 = K.query(c)
            if r2 is False:
                K.finish("violated")
            K.add(c, m2)
        else:
            K.add(c)

    def fail(self, label, known=()):
        self.check(False, label, known)

    def cover(self, label):
        K.labels.append("@" + label)

    def note(self, x):
        K.labels.append(str(x))

    def trace(self, x):
        K.trace.append(x)

    def stop(self):
        K.finish("ok")

    # -- helpers usable on both sides ---------------------------------------------------------
    def call(self, f, *a, **k):
        try:
            return Result(rt.call(f, *a, **k))
        except RecursionError as e:
            return Result(exc=e)
        except Exception as e:
            if "Sym" in str(e) or "CharStr" in str(e):
                K.limits.append("engine:%s:%s" % (type(e).__name__, str(e)[:120]))
            return Result(exc=e)

    def eq(self, a, b):
        return rt.eq(a, b)

    def isin(self, x, c):
        return rt.contains(x, c)

    def all(self, *xs):
        return mkbool(z3.And(*[zb(x) for x in xs])) if xs else True

    def any(self, *xs):
        return mkbool(z3.Or(*[zb(x) for x in xs])) if xs else False

    def neg(self, x):
        return sym.snot(x)

    def implies(self, a, b):
        return mkbool(z3.Implies(zb(a), zb(b)))

    def ite(self, c, a, b):
        if isinstance(c, SymBool) and isinstance(a, int) and isinstance(b, int):
            return sym.mkint(z3.If(c.e, SymInt.lift(a), SymInt.lift(b)))
        return a if c else b

    def choose_str(self, idx, options, default):
        """The string paired with the value of the symbolic integer idx."""
        if not isinstance(idx, SymInt):
            return dict(options).get(idx, default)
        opts = [(idx.e == i, v) for i, v in options]
        opts.append((z3.And(*[idx.e != i for i, v in options]), default))
        return sym.ChoiceStr(opts)

    def text(self, x):
        """Resolve opaque handles inside a concrete string."""
        return sym.resolve(x) if type(x) is str else x

    def set_time(self, t):
        env.clock.now = t


def explore(harness, setup_state, params, known, tokens, deadline_s, max_paths):
    """Explore ``harness(ctx, state)``; returns the list of records."""
    tok_r, tok_w = tokens
    fd, path = tempfile.mkstemp(prefix="dse_")
    os.close(fd)
    fd = os.open(path, os.O_RDWR | os.O_APPEND)
    shared = mmap.mmap(-1, 4096)
    t0 = time.monotonic()
    pid = os.fork()
    if pid == 0:
        try:
            K.start(fd, tok_r, tok_w, shared, t0 + deadline_s, max_paths, {})
            K.own_token = False
            gc.disable()
            sys.setrecursionlimit(3000)
            run_path(harness, setup_state, params, known)
        finally:
            os._exit(3)
    _, st = os.waitpid(pid, 0)
    os.close(fd)
    recs = []
    with open(path) as f:
        for line in f:
            recs.append(json.loads(line))
    os.unlink(path)
    if st != 0:
        recs.append({"t": "path", "status": "engine_error", "error": "root process died: %s" % st, "stats": {}})
    return recs, time.monotonic() - t0


def run_path(harness, state, params, known):
    env.clock.now = env.BASE
    ctx = SymCtx(params, known)
    try:
        harness(ctx, state)
    except Exception as e:
        err = traceback.format_exc()[-3500:]
        K.finish("engine_error", error=err)
    K.finish("violated" if K.violated else "ok")
