"""Symbolic values and the exploration kernel.

A path is a process: ``branch`` asks the solver which sides of a symbolic condition are feasible
under the path condition and, when both are, forks; so the whole interpreter state (session
database, client database, caches ...) is cloned exactly and no path sees another one's writes.
"""
import json
import mmap
import os
import re
import struct
import sys
import time
import traceback

import z3

RLIMIT = 6_000_000


class Kernel:
    """Per-process exploration state (inherited by fork)."""

    def __init__(self):
        self.active = False
        self.opaque, self.opaque_rev, self.symkeys = {}, {}, False
        self.nonascii = False
        self.funcs, self.limits, self.truncated, self.uf = set(), [], [], {}

    def start(self, results_fd, tok_r, tok_w, shared, deadline, max_paths, flags):
        self.active = True
        self.solver = z3.Solver()
        self.solver.set("rlimit", RLIMIT)
        self.model = None
        self.model_ok = False
        self.fd = results_fd
        self.tok_r, self.tok_w = tok_r, tok_w
        self.shared = shared
        self.deadline = deadline
        self.max_paths = max_paths
        self.kids = []
        self.inputs = {}  # name -> (kind, z3 expr / value)
        self.order = []
        self.labels = []
        self.trace = []
        self.funcs = set()
        self.sent_funcs = set()
        self.stats = {"queries": 0, "solver_time": 0.0, "decisions": 0, "checks": 0, "unsat": 0, "unknown": 0}
        self.symkeys = False
        self.opaque = {}
        self.opaque_rev = {}
        self.nonascii = False
        self.flags = flags
        self.truncated = []
        self.fresh = 0
        self.uf = {}
        self.own_token = True
        self.violated = []
        self.limits = []

    # -- shared counters ------------------------------------------------------------------
    def bump(self, idx, by=1):
        # racy increments are good enough: used for the path budget only
        off = idx * 8
        v = struct.unpack_from("q", self.shared, off)[0] + by
        struct.pack_into("q", self.shared, off, v)
        return v

    def emit(self, rec):
        os.write(self.fd, (json.dumps(rec) + "\n").encode())

    # -- solver ---------------------------------------------------------------------------
    def query(self, extra=None):
        t = time.monotonic()
        if extra is not None:
            self.solver.push()
            self.solver.add(extra)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra is not None:
            self.solver.pop()
        self.stats["queries"] += 1
        self.stats["solver_time"] += time.monotonic() - t
        if r == z3.unknown:
            self.stats["unknown"] += 1
            return None, None
        return r == z3.sat, m

    def add(self, e, model=None):
        self.solver.add(e)
        if model is not None:
            self.model, self.model_ok = model, True
        elif self.model_ok:
            v = self.model.eval(e, model_completion=True)
            if not z3.is_true(v):
                self.model_ok = False

    def get_model(self):
        if not self.model_ok:
            r, m = self.query()
            if r is False:
                self.finish("infeasible")
            if m is None:
                return None
            self.model, self.model_ok = m, True
        return self.model

    def over_budget(self):
        if time.monotonic() > self.deadline:
            return "deadline"
        if self.max_paths and struct.unpack_from("q", self.shared, 0)[0] > self.max_paths:
            return "max_paths"
        return None

    def branch(self, cond):
        """Decide a z3 boolean, forking when both sides are feasible."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        m = self.get_model()
        ncond = z3.Not(cond)
        if m is None:  # unknown: explore both sides
            side, other_m = True, None
            sat_other = True
        else:
            side = z3.is_true(m.eval(cond, model_completion=True))
            sat_other, other_m = self.query(ncond if side else cond)
            if sat_other is False:
                return side
        self.stats["decisions"] += 1
        why = self.over_budget()
        if why:
            self.truncated.append(why)
            self.add(cond if side else ncond)
            return side
        if self.fork():
            # child takes the other side
            self.solver.add(ncond if side else cond)
            self.model, self.model_ok = other_m, other_m is not None
            if sat_other is None:
                self.labels.append("?unknown-branch")
            return not side
        self.add(cond if side else ncond)
        return side

    def fork(self):
        """True in the child."""
        conc = False
        try:
            if os.read(self.tok_r, 1):
                conc = True
        except BlockingIOError:
            pass
        pid = os.fork()
        if pid == 0:
            self.kids = []
            self.own_token = conc
            self.sent_funcs = set(self.funcs)
            self.stats = {k: 0 for k in self.stats}
            self.stats["solver_time"] = 0.0
            return True
        if conc:
            self.kids.append(pid)
        else:
            os.waitpid(pid, 0)
        return False

    def finish(self, status, **extra):
        """End this path (never returns)."""
        try:
            rec = {"t": "path", "status": status, "labels": self.labels, "stats": self.stats}
            if self.truncated:
                rec["truncated"] = self.truncated
            if self.limits:
                rec["limits"] = self.limits
            new = self.funcs - self.sent_funcs
            if new:
                rec["funcs"] = sorted(new)
            rec.update(extra)
            if status not in ("infeasible",):
                self.bump(0)
                m = self.get_model() if status != "engine_error" else (self.model if self.model_ok else None)
                if m is not None:
                    rec["inputs"] = self.values(m)
                    rec["trace"] = self.render_trace(m)
            self.emit(rec)
        except BaseException:
            try:
                self.emit({"t": "path", "status": "engine_error", "error": traceback.format_exc()[-3000:]})
            except BaseException:
                pass
        finally:
            if self.own_token:
                os.write(self.tok_w, b".")
            for k in self.kids:
                try:
                    os.waitpid(k, 0)
                except ChildProcessError:
                    pass
            os._exit(0)

    # -- models ---------------------------------------------------------------------------
    def values(self, m):
        out = {}
        for n in self.order:
            kind, v = self.inputs[n]
            out[n] = self.value(kind, v, m)
        return out

    def value(self, kind, v, m):
        if kind == "pick":
            return v
        if kind == "chars":
            return "".join(chr(c if isinstance(c, int) else ev_int(m, c)) for c in v)
        if kind == "int":
            return ev_int(m, v)
        if kind == "bool":
            return z3.is_true(m.eval(v, model_completion=True))
        if kind == "str":
            return ev_str(m, v)
        raise TypeError(kind)

    def render_trace(self, m):
        return [render(x, m) for x in self.trace]

    # -- opaque handles -------------------------------------------------------------------
    def make_opaque(self, obj, tag="s"):
        key = (tag, id(obj))
        h = self.opaque_rev.get(key)
        if h is None:
            h = "zOpq%s%04dZz" % (tag, len(self.opaque))
            self.opaque[h] = obj
            self.opaque_rev[key] = h
        return h


K = Kernel()
OPQ = re.compile(r"zOpq[a-z]\d{4}Zz")


def ev_int(m, e):
    return m.eval(e, model_completion=True).as_long()


_esc = re.compile(r"\\u\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})|\\x([0-9a-fA-F]{2})")


def ev_str(m, e):
    v = m.eval(e, model_completion=True)
    s = v.as_string()
    return _esc.sub(lambda g: chr(int(g.group(1) or g.group(2) or g.group(3), 16)), s)


def render(x, m=None):
    """A json-able picture of a possibly symbolic value under a model."""
    m = m if m is not None else K.get_model()
    if isinstance(x, Sym):
        return x._render(m)
    if type(x) in (str, int, bool, float, type(None)):
        if type(x) is str and K.opaque and "zOpq" in x:
            y = resolve(x)
            if y is not x:
                return render(y, m)
        return x
    if isinstance(x, dict):
        return {str(render(k, m)): render(v, m) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [render(v, m) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted([render(v, m) for v in x], key=str)
    return "<%s>" % type(x).__name__


class Sym:
    """Marker base class of symbolic values."""

    __slots__ = ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise TypeError("symbolic value reached pickle")


def is_sym(x):
    return isinstance(x, Sym)


def has_sym(x, depth=6):
    t = type(x)
    if t in (str,):
        return bool(K.active and K.opaque) and "zOpq" in x
    if t in (int, float, bool, type(None), bytes):
        return False
    if isinstance(x, Sym):
        return True
    if depth == 0:
        return False
    if isinstance(x, dict):
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(v, depth - 1) for v in x)
    return False


# ------------------------------------------------------------------------------------------
class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return K.branch(self.e)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if o is True or (type(o) is int and o == 1):
            return self
        if o is False or (type(o) is int and o == 0):
            return mkbool(z3.Not(self.e))
        return False

    def __ne__(self, o):
        return snot(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        return mkbool(z3.And(self.e, zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, zb(o)))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __repr__(self):
        return "<SymBool>"

    def __str__(self):
        return str(bool(self))

    def _render(self, m):
        return z3.is_true(m.eval(self.e, model_completion=True))


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def zb(x):
    """python/symbolic truth value -> z3 Bool without forking when possible."""
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, SymInt):
        return x.e != 0
    if isinstance(x, SymStr):
        return x.z != z3.StringVal("")
    return z3.BoolVal(bool(x))


def snot(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.e))
    return not x


def sand(*xs):
    return mkbool(z3.And(*[zb(x) for x in xs]))


def sor(*xs):
    return mkbool(z3.Or(*[zb(x) for x in xs]))


def simplies(a, b):
    return mkbool(z3.Implies(zb(a), zb(b)))


# ------------------------------------------------------------------------------------------
class SymInt(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    @staticmethod
    def lift(o):
        if isinstance(o, SymInt):
            return o.e
        if isinstance(o, SymBool):
            return z3.If(o.e, z3.IntVal(1), z3.IntVal(0))
        if type(o) in (int, bool):
            return z3.IntVal(int(o))
        if type(o) is float:
            return z3.RealVal(repr(o))
        return None

    def _arith(self, o, f):
        x = SymInt.lift(o)
        if x is None:
            return NotImplemented
        r = z3.simplify(f(self.e, x))
        if z3.is_int_value(r):
            return r.as_long()
        return SymInt(r)

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._arith(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return self._arith(o, lambda a, b: a / b)
        return realize(self) // o

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return self._arith(o, lambda a, b: a % b)
        return realize(self) % o

    def __truediv__(self, o):
        return realize(self) / o

    def __rtruediv__(self, o):
        return o / realize(self)

    def __neg__(self):
        return self._arith(0, lambda a, b: b - a)

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, f):
        x = SymInt.lift(o)
        if x is None:
            return NotImplemented
        return mkbool(f(self.e, x))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        x = SymInt.lift(o)
        if x is None:
            return False
        return mkbool(self.e == x)

    def __ne__(self, o):
        return snot(self == o)

    def __bool__(self):
        return K.branch(self.e != 0)

    def __hash__(self):
        return object.__hash__(self)

    def __index__(self):
        return realize(self)

    def __int__(self):
        return realize(self)

    def __float__(self):
        return float(realize(self))

    def bit_length(self):
        return realize(self).bit_length()

    def __repr__(self):
        return "<SymInt>"

    def __str__(self):
        return str_of_int(self)._handle()

    def __format__(self, spec):
        if spec in ("", "d"):
            return str_of_int(self)._handle()
        return format(realize(self), spec)

    def _render(self, m):
        return ev_int(m, self.e)


def str_of_int(x):
    return SymStr(z3.If(x.e >= 0, z3.IntToStr(x.e), z3.Concat(z3.StringVal("-"), z3.IntToStr(-x.e))))


# ------------------------------------------------------------------------------------------
def zs(x):
    if isinstance(x, SymStr):
        return x.z
    return z3.StringVal(x)


def _strip_default(c):
    return sor(sand(c >= 9, c <= 13), c == 32)


class SymStr(Sym):
    """A symbolic string over the solver's string theory (length symbolic)."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def z(self):
        return self.e

    @property
    def __class__(self):
        return str

    def _handle(self):
        return K.make_opaque(self)

    def __str__(self):
        return self._handle()

    def __repr__(self):
        return "<SymStr>"

    def __format__(self, spec):
        if spec:
            return format(realize(self), spec)
        return self._handle()

    def __hash__(self):
        return object.__hash__(self)

    def __bool__(self):
        return K.branch(self.z != z3.StringVal(""))

    def __eq__(self, o):
        if type(o) is str:
            o = resolve(o)
        if isinstance(o, SymStr):
            if o is self:
                return True
            return mkbool(self.z == o.z)
        if type(o) is str:
            return mkbool(self.z == z3.StringVal(o))
        if isinstance(o, str):
            return mkbool(self.z == z3.StringVal(str.__str__(o)))
        return False

    def __ne__(self, o):
        return snot(self == o)

    def __lt__(self, o):
        return mkbool(self.z < zs(o))

    def __le__(self, o):
        return mkbool(self.z <= zs(o))

    def __gt__(self, o):
        return mkbool(zs(o) < self.z)

    def __ge__(self, o):
        return mkbool(zs(o) <= self.z)

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        if type(o) is str and o == "":
            return self
        return SymStr(z3.Concat(self.z, zs(resolve(o))))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        if type(o) is str and o == "":
            return self
        return SymStr(z3.Concat(zs(resolve(o)), self.z))

    def __mul__(self, n):
        return realize(self) * n

    def length(self):
        return mkint(z3.Length(self.z))

    def __len__(self):
        n = self.length()
        return n if type(n) is int else realize(n)

    def __contains__(self, o):
        return bool(self.has(o))

    def has(self, o):
        if not isinstance(o, str):
            raise TypeError("'in <string>' requires string as left operand")
        return mkbool(z3.Contains(self.z, zs(resolve(o))))

    def startswith(self, p, *a):
        if a:
            return realize(self).startswith(realize(p), *a)
        if isinstance(p, tuple):
            return sor(*[self.startswith(x) for x in p])
        return mkbool(z3.PrefixOf(zs(resolve(p)), self.z))

    def endswith(self, p, *a):
        if a:
            return realize(self).endswith(realize(p), *a)
        if isinstance(p, tuple):
            return sor(*[self.endswith(x) for x in p])
        return mkbool(z3.SuffixOf(zs(resolve(p)), self.z))

    def find(self, s, start=0, *a):
        if a:
            return realize(self).find(realize(s), start, *a)
        return mkint(z3.IndexOf(self.z, zs(s), SymInt.lift(start)))

    def index(self, s, start=0, *a):
        r = self.find(s, start, *a)
        if r == -1:
            raise ValueError("substring not found")
        return r

    def _cut(self, sep):
        i = z3.IndexOf(self.z, zs(sep), 0)
        head = SymStr(z3.SubString(self.z, 0, i))
        tail = SymStr(z3.SubString(self.z, i + z3.Length(zs(sep)), z3.Length(self.z)))
        return head, tail

    def partition(self, sep):
        if self.has(sep):
            h, t = self._cut(sep)
            return h, sep, t
        return self, "", ""

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            if K.branch(z3.InRe(self.z, z3.Star(NONSPACE))):
                return [self] if self else []
            return realize(self).split(None, maxsplit)
        out, rest = [], self
        while maxsplit != 0:
            if not rest.has(sep):
                break
            if len(out) > 6:
                K.truncated.append("split")
                K.finish("truncated")
            h, rest = rest._cut(sep)
            out.append(h)
            maxsplit -= 1
        out.append(rest)
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit == -1:
            return self.split(sep)
        return realize(self).rsplit(sep, maxsplit)

    def rpartition(self, sep):
        if self.has(sep):
            i = z3.LastIndexOf(self.z, zs(sep))
            return (
                SymStr(z3.SubString(self.z, 0, i)),
                sep,
                SymStr(z3.SubString(self.z, i + z3.Length(zs(sep)), z3.Length(self.z))),
            )
        return "", "", self

    def replace(self, a, b, count=-1):
        if not self.has(a):
            return self
        if count == 1:
            return SymStr(z3.Replace(self.z, zs(a), zs(b)))
        return realize(self).replace(realize(a), realize(b), count)

    def _strip(self, chars, left, right):
        """Peel up to four characters from either end, one decision each; longer runs are given up on."""
        s = self
        for end, want in (("l", left), ("r", right)):
            if not want:
                continue
            for _ in range(5):
                if chars is None:
                    hit = z3.InRe(s.z, z3.Concat(SPACE1, ANYSTR) if end == "l" else z3.Concat(ANYSTR, SPACE1))
                elif not len(chars):
                    break
                else:
                    op = z3.PrefixOf if end == "l" else z3.SuffixOf
                    hit = z3.Or(*[op(z3.StringVal(c), s.z) for c in chars])
                if not K.branch(hit):
                    break
                n = z3.Length(s.z)
                s = SymStr(z3.simplify(z3.SubString(s.z, 1 if end == "l" else 0, n - 1)))
            else:
                r = realize(s)
                return r.strip(chars) if left and right else r.lstrip(chars) if left else r.rstrip(chars)
        return s

    def strip(self, chars=None):
        if chars is None and K.branch(z3.InRe(self.z, z3.Star(NONSPACE))):
            return self
        if chars is not None and type(chars) is not str:
            return realize(self).strip(chars)
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        if chars is not None and type(chars) is not str:
            return realize(self).lstrip(chars)
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        if chars is not None and type(chars) is not str:
            return realize(self).rstrip(chars)
        return self._strip(chars, False, True)

    def lower(self):
        if K.branch(z3.InRe(self.z, z3.Star(NOUPPER))):
            return self
        return realize(self).lower()

    def casefold(self):
        return self.lower()

    def upper(self):
        return realize(self).upper()

    def title(self):
        return realize(self).title()

    def isdigit(self):
        return mkbool(z3.InRe(self.z, z3.Plus(z3.Range("0", "9"))))

    isnumeric = isdigit
    isdecimal = isdigit

    def isalnum(self):
        return mkbool(z3.InRe(self.z, z3.Plus(ALNUM)))

    def isascii(self):
        return mkbool(z3.InRe(self.z, z3.Star(z3.Range(chr(0), chr(127)))))

    def encode(self, *a, **k):
        return SymBytes(self)

    def join(self, it):
        return join(self, it)

    def format(self, *a, **k):
        return realize(self).format(*a, **k)

    def __mod__(self, a):
        return realize(self) % a

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b, st = i.start, i.stop, i.step
            if st not in (None, 1):
                return realize(self)[i]
            if (a is None or (type(a) is int and a >= 0) or isinstance(a, SymInt)) and (
                b is None or (type(b) is int and b >= 0) or isinstance(b, SymInt)
            ):
                sa = z3.IntVal(0) if a is None else SymInt.lift(a)
                ln = z3.Length(self.z) - sa if b is None else SymInt.lift(b) - sa
                return SymStr(z3.simplify(z3.SubString(self.z, sa, ln)))
            if type(b) is int and b < 0 and (a is None or a == 0):
                if K.branch(z3.Length(self.z) >= -b):
                    return SymStr(z3.simplify(z3.SubString(self.z, 0, z3.Length(self.z) + b)))
                return ""
            if type(a) is int and a < 0 and b is None:
                if K.branch(z3.Length(self.z) >= -a):
                    return SymStr(z3.simplify(z3.SubString(self.z, z3.Length(self.z) + a, -a)))
                return self
            return realize(self)[i]
        if type(i) is int and i >= 0:
            if K.branch(z3.Length(self.z) > i):
                return SymStr(z3.SubString(self.z, i, 1))
            raise IndexError("string index out of range")
        return realize(self)[realize(i)]

    def __iter__(self):
        n = len(self)
        for i in range(n):
            yield SymStr(z3.SubString(self.z, i, 1))

    def __getattr__(self, name):
        # any other str method: concretise
        if hasattr(str, name) and not name.startswith("__"):
            return lambda *a, **k: getattr(realize(self), name)(*a, **k)
        raise AttributeError(name)

    def _render(self, m):
        return ev_str(m, self.z)


NONSPACE = z3.Range("!", "~")
SPACE1 = z3.Union(z3.Range("\t", "\r"), z3.Range("\x1c", " "))
ANYSTR = z3.Star(z3.AllChar(z3.ReSort(z3.StringSort()))) if hasattr(z3, "AllChar") else z3.Full(z3.ReSort(z3.StringSort()))
NOUPPER = z3.Union(z3.Range(" ", "@"), z3.Range("[", "~"))
ALNUM = z3.Union(z3.Range("0", "9"), z3.Range("a", "z"), z3.Range("A", "Z"))


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkstr(e):
    e = z3.simplify(e)
    if z3.is_string_value(e):
        return _esc.sub(lambda g: chr(int(g.group(1) or g.group(2) or g.group(3), 16)), e.as_string())
    return SymStr(e)


# ------------------------------------------------------------------------------------------
def _ci(c):
    return c if isinstance(c, int) else c


class ChoiceStr(SymStr):
    """One of finitely many concrete strings, selected by symbolic conditions."""

    __slots__ = ("opts", "_z")

    def __init__(self, opts):
        self.opts = opts  # [(z3 cond, str)], mutually exclusive and exhaustive
        self._z = None

    @property
    def z(self):
        if self._z is None:
            r = z3.StringVal(self.opts[-1][1])
            for c, v in reversed(self.opts[:-1]):
                r = z3.If(c, z3.StringVal(v), r)
            self._z = r
        return self._z

    def _is(self, text):
        return mkbool(z3.Or(*[c for c, v in self.opts if v == text]))

    def __hash__(self):
        return object.__hash__(self)

    def __bool__(self):
        return bool(snot(self._is("")))

    def __eq__(self, o):
        if isinstance(o, ChoiceStr):
            if o is self:
                return True
            return mkbool(z3.Or(*[z3.And(c, d) for c, v in self.opts for d, u in o.opts if u == v]))
        if type(o) is str:
            o = resolve(o)
        if type(o) is str:
            return self._is(o)
        if isinstance(o, SymStr):
            return mkbool(self.z == o.z)
        if isinstance(o, str):
            return self._is(str.__str__(o))
        return False

    def __ne__(self, o):
        return snot(self == o)

    def _render(self, m):
        for c, v in self.opts:
            if z3.is_true(m.eval(c, model_completion=True)):
                return v
        return self.opts[-1][1]

    def concrete(self):
        """Decide which string it is (forks)."""
        for c, v in self.opts[:-1]:
            if K.branch(c):
                return v
        return self.opts[-1][1]


class CharStr(SymStr):
    """A string of concrete length whose characters are symbolic code points."""

    __slots__ = ("cs", "_z")

    def __init__(self, cs):
        self.cs = list(cs)
        self._z = None

    @property
    def z(self):
        if self._z is None:
            parts = []
            buf = ""
            for c in self.cs:
                if isinstance(c, int):
                    buf += chr(c)
                else:
                    if buf:
                        parts.append(z3.StringVal(buf))
                        buf = ""
                    parts.append(z3.StrFromCode(c))
            if buf:
                parts.append(z3.StringVal(buf))
            if not parts:
                self._z = z3.StringVal("")
            elif len(parts) == 1:
                self._z = parts[0]
            else:
                self._z = z3.Concat(*parts)
        return self._z

    @property
    def e(self):
        return self.z

    def _render(self, m):
        return "".join(chr(c if isinstance(c, int) else ev_int(m, c)) for c in self.cs)

    def __hash__(self):
        return object.__hash__(self)

    @staticmethod
    def chars_of(o):
        o = resolve(o)
        if isinstance(o, CharStr):
            return o.cs
        if type(o) is str:
            return [ord(c) for c in o]
        if isinstance(o, str) and not isinstance(o, Sym):
            return [ord(c) for c in str.__str__(o)]
        return None

    @staticmethod
    def _eqs(a, b):
        cond = []
        for x, y in zip(a, b):
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    return False
            else:
                cond.append(x == y)
        if not cond:
            return True
        return mkbool(z3.And(*cond))

    def __eq__(self, o):
        c = CharStr.chars_of(o) if isinstance(o, str) else None
        if c is None:
            if isinstance(o, SymStr):
                return mkbool(self.z == o.z)
            return False
        if len(c) != len(self.cs):
            return False
        return self._eqs(self.cs, c)

    def __ne__(self, o):
        return snot(self == o)

    def __bool__(self):
        return bool(self.cs)

    def length(self):
        return len(self.cs)

    def __len__(self):
        return len(self.cs)

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        c = CharStr.chars_of(o)
        if c is None:
            return SymStr(z3.Concat(self.z, o.z))
        return mkchars(self.cs + c)

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        c = CharStr.chars_of(o)
        if c is None:
            return SymStr(z3.Concat(o.z, self.z))
        return mkchars(c + self.cs)

    def __mul__(self, n):
        return mkchars(self.cs * n)

    def _at(self, pat, i):
        if i < 0 or i + len(pat) > len(self.cs):
            return False
        return self._eqs(self.cs[i : i + len(pat)], pat)

    def has(self, o):
        if not isinstance(o, str):
            raise TypeError("'in <string>' requires string as left operand")
        p = CharStr.chars_of(o)
        if p is None:
            return mkbool(z3.Contains(self.z, o.z))
        return sor(*[self._at(p, i) for i in range(len(self.cs) - len(p) + 1)]) if len(p) <= len(self.cs) else False

    def startswith(self, p, *a):
        if a:
            return self[a[0] :].startswith(p) if len(a) == 1 else realize(self).startswith(p, *a)
        if isinstance(p, tuple):
            return sor(*[self.startswith(x) for x in p])
        c = CharStr.chars_of(p)
        if c is None:
            return SymStr.startswith(self, p)
        return self._at(c, 0)

    def endswith(self, p, *a):
        if isinstance(p, tuple):
            return sor(*[self.endswith(x) for x in p])
        c = CharStr.chars_of(p)
        if c is None:
            return SymStr.endswith(self, p)
        return self._at(c, len(self.cs) - len(c))

    def find(self, s, start=0, end=None):
        c = CharStr.chars_of(s)
        if c is None:
            return realize(self).find(realize(s), start)
        start = realize(start) if start is not None else 0
        n = len(self.cs) if end is None else min(realize(end), len(self.cs))
        if start < 0:
            start = max(0, n + start)
        for i in range(start, n - len(c) + 1):
            if self._at(c, i):
                return i
        return -1

    def rfind(self, s, start=0, end=None):
        c = CharStr.chars_of(s)
        n = len(self.cs) if end is None else end
        for i in range(n - len(c), start - 1, -1):
            if self._at(c, i):
                return i
        return -1

    def index(self, s, start=0, end=None):
        r = self.find(s, start, end)
        if r == -1:
            raise ValueError("substring not found")
        return r

    def count(self, s):
        n, i = 0, 0
        c = CharStr.chars_of(s)
        while i <= len(self.cs) - len(c):
            if self._at(c, i):
                n += 1
                i += len(c)
            else:
                i += 1
        return n

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, "", ""
        return self[:i], sep, self[i + len(sep) :]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", self
        return self[:i], sep, self[i + len(sep) :]

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out, cur = [], []
            i, n = 0, len(self.cs)
            while i < n:
                c = self.cs[i]
                if _is_space(c):
                    if cur:
                        out.append(mkchars(cur))
                        cur = []
                        if maxsplit >= 0 and len(out) >= maxsplit:
                            rest = mkchars(self.cs[i:])
                            rest = rest.lstrip()
                            if rest:
                                out.append(rest)
                            return out
                else:
                    cur.append(c)
                i += 1
            if cur:
                out.append(mkchars(cur))
            return out
        out, rest = [], self
        while maxsplit != 0:
            i = rest.find(sep) if isinstance(rest, CharStr) else rest.find(sep)
            if i < 0:
                break
            out.append(rest[:i])
            rest = rest[i + len(sep) :]
            maxsplit -= 1
        out.append(rest)
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit == -1 or sep is None:
            return self.split(sep, maxsplit)
        out, rest = [], self
        while maxsplit != 0:
            i = rest.rfind(sep)
            if i < 0:
                break
            out.insert(0, rest[i + len(sep) :])
            rest = rest[:i]
            maxsplit -= 1
        out.insert(0, rest)
        return out

    def splitlines(self, *a):
        return realize(self).splitlines(*a)

    def replace(self, a, b, count=-1):
        ca, cb = CharStr.chars_of(a), CharStr.chars_of(b)
        if ca is None or cb is None or not ca:
            return realize(self).replace(realize(a), realize(b), count)
        out, i = [], 0
        while i < len(self.cs):
            if count != 0 and self._at(ca, i):
                out.extend(cb)
                i += len(ca)
                count -= 1
            else:
                out.append(self.cs[i])
                i += 1
        return mkchars(out)

    def _inset(self, c, chars):
        if chars is None:
            return _is_space(c)
        for x in CharStr.chars_of(chars):
            if _ceq(c, x):
                return True
        return False

    def lstrip(self, chars=None):
        i = 0
        while i < len(self.cs) and self._inset(self.cs[i], chars):
            i += 1
        return mkchars(self.cs[i:])

    def rstrip(self, chars=None):
        i = len(self.cs)
        while i > 0 and self._inset(self.cs[i - 1], chars):
            i -= 1
        return mkchars(self.cs[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def removeprefix(self, p):
        return self[len(p) :] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[: len(self.cs) - len(p)] if len(p) and self.endswith(p) else self

    def lower(self):
        return mkchars(
            [
                (ord(chr(c).lower()) if isinstance(c, int) else z3.If(z3.And(c >= 65, c <= 90), c + 32, c))
                for c in self.cs
            ]
        )

    casefold = lower

    def upper(self):
        return mkchars(
            [
                (ord(chr(c).upper()) if isinstance(c, int) else z3.If(z3.And(c >= 97, c <= 122), c - 32, c))
                for c in self.cs
            ]
        )

    def _all(self, pred):
        if not self.cs:
            return False
        return sand(*[pred(c) for c in self.cs])

    def isdigit(self):
        return self._all(lambda c: _rng(c, 48, 57))

    isnumeric = isdigit
    isdecimal = isdigit

    def isalpha(self):
        return self._all(lambda c: sor(_rng(c, 65, 90), _rng(c, 97, 122)))

    def isalnum(self):
        return self._all(lambda c: sor(_rng(c, 48, 57), _rng(c, 65, 90), _rng(c, 97, 122)))

    def isascii(self):
        return sand(*[_rng(c, 0, 127) for c in self.cs]) if self.cs else True

    def isspace(self):
        return self._all(_is_space)

    def encode(self, *a, **k):
        # SymBytes counts one byte per character: what is not ASCII is taken concretely
        known = any(isinstance(c, int) and c > 127 for c in self.cs)
        if known or (K.nonascii and bool(sor(*[_rng(c, 128, 0x10FFFF) for c in self.cs]))):
            return realize(self).encode(*a, **k)
        return SymBytes(self)

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[None if v is None else realize(v) for v in (i.start, i.stop, i.step)])
            return mkchars(self.cs[i])
        return mkchars([self.cs[realize(i)]])

    def __iter__(self):
        for c in self.cs:
            yield mkchars([c])

    def __lt__(self, o):
        return mkbool(self.z < zs(o))


def _ceq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return mkbool(a == b)


def _rng(c, lo, hi):
    if isinstance(c, int):
        return lo <= c <= hi
    return mkbool(z3.And(c >= lo, c <= hi))


def _is_space(c):
    if isinstance(c, int):
        return chr(c).isspace()
    return mkbool(z3.Or(c == 32, z3.And(c >= 9, c <= 13), z3.And(c >= 28, c <= 31)))


def mkchars(cs):
    cs = list(cs)
    out = []
    sym = False
    for c in cs:
        if not isinstance(c, int):
            c2 = z3.simplify(c)
            if z3.is_int_value(c2):
                c = c2.as_long()
            else:
                c = c2
                sym = True
        out.append(c)
    if not sym:
        return "".join(map(chr, out))
    return CharStr(out)


class SymBytes(Sym):
    """utf-8 encoding of a symbolic string."""

    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    @property
    def __class__(self):
        return bytes

    def decode(self, *a, **k):
        return self.s

    def __eq__(self, o):
        if isinstance(o, SymBytes):
            return self.s == o.s
        if isinstance(o, bytes):
            try:
                return self.s == o.decode()
            except UnicodeDecodeError:
                return False
        return False

    def __ne__(self, o):
        return snot(self == o)

    def __hash__(self):
        return object.__hash__(self)

    def __bool__(self):
        return bool(self.s)

    def __len__(self):
        return len(self.s)

    def length(self):
        return self.s.length()

    @staticmethod
    def _w(r):
        return r.encode() if type(r) is str else SymBytes(r)

    @staticmethod
    def _u(o):
        return o.s if isinstance(o, SymBytes) else o.decode("latin-1")

    def __add__(self, o):
        return self._w(self.s + self._u(o))

    def __radd__(self, o):
        return self._w(self._u(o) + self.s)

    def split(self, sep=None, maxsplit=-1):
        return [self._w(x) for x in self.s.split(None if sep is None else self._u(sep), maxsplit)]

    def partition(self, sep):
        return tuple(self._w(x) for x in self.s.partition(self._u(sep)))

    def startswith(self, p):
        return self.s.startswith(self._u(p))

    def endswith(self, p):
        return self.s.endswith(self._u(p))

    def strip(self, *a):
        return self._w(self.s.strip(*[self._u(x) for x in a]))

    def lstrip(self, *a):
        return self._w(self.s.lstrip(*[self._u(x) for x in a]))

    def rstrip(self, *a):
        return self._w(self.s.rstrip(*[self._u(x) for x in a]))

    def replace(self, a, b):
        return self._w(self.s.replace(self._u(a), self._u(b)))

    def find(self, p, *a):
        return self.s.find(self._u(p), *a)

    def __contains__(self, o):
        return bool(self.s.has(self._u(o)))

    def has(self, o):
        return self.s.has(self._u(o))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._w(self.s[i])
        return ord(realize(self.s[i]))

    def __bytes__(self):
        return self._handle()

    def _handle(self):
        return K.make_opaque(self.s).encode()

    def __repr__(self):
        return "<SymBytes>"

    def _render(self, m):
        return self.s._render(m)

    def __getattr__(self, name):
        if hasattr(bytes, name) and not name.startswith("__"):
            return lambda *a, **k: getattr(realize(self), name)(*a, **k)
        raise AttributeError(name)


# ------------------------------------------------------------------------------------------
def resolve(x):
    """Replace opaque handles inside a concrete string by the symbolic strings they stand for."""
    if type(x) is str and K.active and K.opaque and "zOpq" in x:
        if OPQ.fullmatch(x):
            v = K.opaque.get(x)
            return v if isinstance(v, SymStr) else x
        parts, pos = [], 0
        for mt in OPQ.finditer(x):
            v = K.opaque.get(mt.group(0))
            if not isinstance(v, SymStr):
                continue
            if mt.start() > pos:
                parts.append(x[pos : mt.start()])
            parts.append(v)
            pos = mt.end()
        if not parts:
            return x
        if pos < len(x):
            parts.append(x[pos:])
        return concat(parts)
    return x


def concat(parts):
    """Concatenate str/SymStr pieces."""
    parts = [p for p in parts if not (type(p) is str and p == "")]
    if not parts:
        return ""
    if all(type(p) is str for p in parts):
        return "".join(parts)
    if len(parts) == 1:
        return parts[0]
    if all(type(p) is str or isinstance(p, CharStr) for p in parts):
        cs = []
        for p in parts:
            cs.extend(CharStr.chars_of(p))
        return mkchars(cs)
    return SymStr(z3.Concat(*[zs(p) for p in parts]))


def join(sep, it):
    parts = []
    for i, x in enumerate(it):
        if not isinstance(x, str):
            raise TypeError("sequence item %d: expected str instance, %s found" % (i, type(x).__name__))
        if i:
            parts.append(sep)
        parts.append(resolve(x))
    return concat(parts)


REALIZE_MAX = 3


def realize(x, k=None):
    """Concretise: pick up to REALIZE_MAX values the path admits (the rest is dropped and recorded)."""
    if type(x) is str:
        y = resolve(x)
        if y is x:
            return x
        x = y
    if not isinstance(x, Sym):
        if type(x) in (list, tuple, set, frozenset) and has_sym(x):
            return type(x)(realize(v) for v in x)
        if type(x) is dict and has_sym(x):
            return {realize(kk): realize(v) for kk, v in x.items()}
        return x
    if isinstance(x, SymBytes):
        r = realize(x.s)
        return r.encode()
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, ChoiceStr):
        return x.concrete()
    k = k or REALIZE_MAX
    for _ in range(k):
        m = K.get_model()
        if m is None:
            break
        v = x._render(m)
        if K.branch(zb(x == v)):
            return v
    import traceback

    fr = [f for f in traceback.extract_stack(limit=12) if "/verif/engine/" not in f.filename]
    K.truncated.append("realize@%s:%s" % (fr[-1].filename.rsplit("/", 1)[-1], fr[-1].lineno) if fr else "realize")
    K.finish("truncated")
