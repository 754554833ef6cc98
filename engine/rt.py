"""Runtime the instrumented code calls: Python's semantics, lifted to symbolic operands."""
import builtins
import json
_dumps, _loads = json.dumps, json.loads
import operator
import string
import types

from engine import sym
from engine.sym import K
from engine.sym import CharStr
from engine.sym import Sym
from engine.sym import SymBool
from engine.sym import SymBytes
from engine.sym import SymInt
from engine.sym import SymStr
from engine.sym import concat
from engine.sym import has_sym
from engine.sym import realize
from engine.sym import resolve
from engine.sym import snot
from engine.sym import sor
from engine.sym import zb

MODELS = {}  # callable -> model
_bm = types.BuiltinFunctionType  # also builtin methods
_md = types.MethodDescriptorType
_mw = types.MethodWrapperType
_PY = (types.FunctionType, types.MethodType)
DICTVIEWS = (type({}.keys()),)


def enter(name):
    if K.active:
        K.funcs.add(name)


# -- keys ----------------------------------------------------------------------------------
def _symkey(k):
    return isinstance(k, Sym) or (type(k) is str and K.active and K.opaque and "zOpq" in k) or (
        type(k) is tuple and has_sym(k)
    )


def _keq(a, b):
    """Semantic key equality (forks)."""
    if isinstance(a, Sym) or isinstance(b, Sym):
        return bool(eq(a, b))
    r = a == b
    return bool(r)


def _find(d, k):
    """The stored key semantically equal to k, or a marker."""
    if not K.active or (not K.symkeys and not _symkey(k)):
        return k if k in d else _MISS
    k = resolve(k)
    if isinstance(k, SymInt) or isinstance(k, SymStr) or isinstance(k, SymBytes) or type(k) is tuple:
        for x in list(d):
            if x is k:
                return x
        for x in list(d):
            if _keq(x, k):
                return x
        return _MISS
    # concrete key, but the container may hold symbolic ones
    if k in d:
        return k
    for x in list(d):
        if isinstance(x, Sym) and _keq(x, k):
            return x
    return _MISS


class _Miss:
    pass


_MISS = _Miss()


def getitem(o, k):
    if isinstance(o, Sym) or not K.active:
        return o[k]
    if isinstance(o, dict) and (K.symkeys or _symkey(k)):
        f = _find(o, k)
        if f is _MISS:
            miss = getattr(type(o), "__missing__", None)
            if miss:
                return miss(o, k)
            raise KeyError(k)
        return dict.__getitem__(o, f)
    if type(k) is SymInt and isinstance(o, (list, tuple, str, bytes)):
        return o[realize(k)]
    return o[k]


def setitem(v, o, k):
    if isinstance(o, dict) and K.active and (K.symkeys or _symkey(k)):
        k = resolve(k)
        f = _find(o, k)
        if f is _MISS:
            if isinstance(k, Sym):
                K.symkeys = True
            f = k
        dict.__setitem__(o, f, v)
        return
    o[k] = v


def delitem(o, k):
    if isinstance(o, dict) and K.active and (K.symkeys or _symkey(k)):
        f = _find(o, k)
        if f is _MISS:
            raise KeyError(k)
        dict.__delitem__(o, f)
        return
    del o[k]


_AUG = {
    "Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "BitOr": operator.ior,
    "BitAnd": operator.iand, "BitXor": operator.ixor, "FloorDiv": operator.ifloordiv,
    "Mod": operator.imod, "Div": operator.itruediv, "LShift": operator.ilshift,
    "RShift": operator.irshift, "Pow": operator.ipow,
}


def augitem(o, k, op, v):
    setitem(_AUG[op](getitem(o, k), v), o, k)


def mkdict(items):
    if not K.active:
        d = {}
        for it in items:
            if len(it) == 1:
                d.update(it[0])
            else:
                d[it[0]] = it[1]
        return d
    d = {}
    for it in items:
        if len(it) == 1:
            m = it[0]
            for k in m:
                setitem(getitem(m, k), d, k)
        else:
            setitem(it[1], d, it[0])
    return d


def setadd(s, x):
    if K.active and (K.symkeys or _symkey(x)):
        x = resolve(x)
        if _find(s, x) is _MISS:
            if isinstance(x, Sym):
                K.symkeys = True
            set.add(s, x)
        return
    set.add(s, x)


def mkset(items):
    if not K.active:
        return set(items)
    s = set()
    for x in items:
        setadd(s, x)
    return s


# -- comparisons ---------------------------------------------------------------------------
def _rs(a):
    if type(a) is str and K.active and K.opaque and "zOpq" in a:
        return resolve(a)
    return a


_SETS = (set, frozenset)


def _issub(a, b):
    for x in a:
        if _find(b, x) is _MISS:
            return False
    return True


def _symset(a, b):
    return K.active and isinstance(a, (set, frozenset) + DICTVIEWS) and isinstance(
        b, (set, frozenset) + DICTVIEWS
    ) and (K.symkeys or has_sym(a) or has_sym(b))


def eq(a, b):
    if K.active:
        if K.opaque:
            a, b = _rs(a), _rs(b)
        if _symset(a, b):
            return _issub(a, b) and _issub(b, a)
        if type(a) is dict and type(b) is dict and K.symkeys:
            if len(a) != len(b):
                return False
            for k in a:
                f = _find(b, k)
                if f is _MISS or not eq(a[k], b[f]):
                    return False
            return True
        if K.opaque and type(a) in (list, tuple) and type(a) is type(b):
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if not eq(x, y):
                    return False
            return True
    return a == b


def ne(a, b):
    r = eq(a, b) if (K.active and (K.opaque or K.symkeys)) else None
    if r is None:
        return a != b
    return snot(r)


def lt(a, b):
    if _symset(a, b):
        return _issub(a, b) and not _issub(b, a)
    return a < b


def le(a, b):
    if _symset(a, b):
        return _issub(a, b)
    return a <= b


def gt(a, b):
    if _symset(a, b):
        return _issub(b, a) and not _issub(a, b)
    return a > b


def ge(a, b):
    if _symset(a, b):
        return _issub(b, a)
    return a >= b


def is_(a, b):
    if isinstance(a, SymBool) and (b is True or b is False):
        return a == b
    if isinstance(b, SymBool) and (a is True or a is False):
        return b == a
    return a is b


def is_not(a, b):
    return snot(is_(a, b))


def contains(x, c):
    if not K.active:
        return x in c
    if isinstance(c, (SymStr, SymBytes)):
        return c.has(x)
    if type(c) is str:
        rc = _rs(c)
        if rc is not c:
            return rc.has(x)
        x = _rs(x)
        if isinstance(x, SymStr):
            if isinstance(x, CharStr):
                n = len(x.cs)
                return sor(*[x == c[i : i + n] for i in range(len(c) - n + 1)]) if n <= len(c) else False
            import z3

            return sym.mkbool(z3.Contains(z3.StringVal(c), x.z))
        return x in c
    if isinstance(c, (dict, set, frozenset) + DICTVIEWS):
        if type(c) is dict or isinstance(c, (set, frozenset) + DICTVIEWS) or type(c).__contains__ is dict.__contains__:
            return _find(c, x) is not _MISS
        return x in c
    if type(c) in (list, tuple):
        if K.opaque or isinstance(x, Sym) or any(isinstance(y, Sym) for y in c):
            rs = [eq(x, y) for y in c]
            return sor(*rs) if rs else False
        return x in c
    return x in c


def not_contains(x, c):
    return snot(contains(x, c))


_OPS = {}


def chain(ops, left, *rest):
    r = True
    for op, th in zip(ops, rest):
        b = th()
        r = _OPS[op](left, b)
        if not r:
            return r
        left = b
    return r


_OPS.update(
    eq=eq, ne=ne, lt=lt, le=le, gt=gt, ge=ge, contains=contains, not_contains=not_contains, is_=is_, is_not=is_not
)


# -- binary operators ----------------------------------------------------------------------
def sub(a, b):
    if _symset(a, b):
        return mkset([x for x in a if _find(b, x) is _MISS])
    return a - b


def band(a, b):
    if _symset(a, b):
        return mkset([x for x in a if _find(b, x) is not _MISS])
    return a & b


def bor(a, b):
    if _symset(a, b):
        return mkset(list(a) + list(b))
    if isinstance(a, dict) and isinstance(b, dict) and K.active and K.symkeys:
        return mkdict([(a,), (b,)])
    return a | b


def bxor(a, b):
    if _symset(a, b):
        return bor(sub(a, b), sub(b, a))
    return a ^ b


def add(a, b):
    return a + b


def mod(a, b):
    if type(a) is str and K.active:
        args = b if isinstance(b, (tuple, dict)) else (b,)
        if has_sym(args):
            return _percent(a, args)
    if isinstance(a, SymStr):
        return _percent(realize(a), b if isinstance(b, (tuple, dict)) else (b,))
    return a % b


def _percent(fmt, args):
    import re

    out, pos, i = [], 0, 0
    for m in re.finditer(r"%(?:\(([^)]*)\))?([#0\- +]*\d*(?:\.\d+)?)([a-zA-Z%])", fmt):
        out.append(fmt[pos : m.start()])
        pos = m.end()
        if m.group(3) == "%":
            out.append("%")
            continue
        if m.group(1) is not None:
            v = args[m.group(1)]
        else:
            v = args[i]
            i += 1
        if m.group(3) == "s" and not m.group(2):
            out.append(tostr(v))
        elif m.group(3) in "di" and not m.group(2):
            out.append(tostr(v))
        else:
            out.append(("%" + m.group(2) + m.group(3)) % (realize(v),))
    out.append(fmt[pos:])
    return concat(out)


def tostr(v):
    if isinstance(v, SymStr):
        return v
    if isinstance(v, SymInt):
        return sym.str_of_int(v)
    if isinstance(v, SymBool):
        return str(bool(v))
    if type(v) is str:
        return resolve(v)
    if isinstance(v, (list, tuple, dict, set)) and has_sym(v):
        return str(realize(v))
    return resolve(str(v))


def fstring(parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if conv == 114:
                v = repr(realize(v) if has_sym(v) else v)
            elif conv == 115:
                v = tostr(v)
            if spec:
                out.append(resolve(format(realize(v), spec)))
            elif isinstance(v, str) or isinstance(v, Sym):
                out.append(tostr(v))
            else:
                out.append(resolve(format(v, "")) if not has_sym(v) else tostr(v))
        else:
            out.append(p)
    return concat(out)


def _format(fmt, args, kwargs):
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        else:
            first, rest = field, None
            for ch in ".[":
                if ch in first:
                    first = first.split(ch)[0]
            if first.isdigit():
                v = args[int(first)]
            elif first == "":
                v = args[auto]
                auto += 1
            else:
                v = kwargs[first]
            if first != field:
                v, _ = string.Formatter().get_field(field.replace(first, "x", 1), (), {"x": v})
        if spec:
            out.append(format(realize(v), spec))
        elif conv == "r":
            out.append(repr(realize(v)))
        else:
            out.append(tostr(v))
    return concat(out)


# -- calls ---------------------------------------------------------------------------------
def call(f, *a, **k):
    if not K.active:
        return f(*a, **k)
    t = type(f)
    if t is types.FunctionType:
        m = MODELS.get(f)
        if m is not None:
            return m(*a, **k)
        return f(*a, **k)
    if t is types.MethodType:
        m = MODELS.get(f.__func__)
        if m is not None:
            return m(f.__self__, *a, **k)
        return f(*a, **k)
    if t is type:
        m = TYPES.get(f)
        if m is not None:
            return m(*a, **k)
        return f(*a, **k)
    if t is _bm:
        s = f.__self__
        ts = type(s)
        if ts in METHODS:
            h = METHODS[ts].get(f.__name__)
            if h is not None:
                return h(s, *a, **k)
            if has_sym(a) or has_sym(k) or (ts is str and K.opaque and "zOpq" in s):
                if ts is str:
                    rs_ = resolve(s)
                    if rs_ is not s:
                        return getattr(rs_, f.__name__)(*a, **k)
                if ts in (str, bytes):
                    return f(*[realize(x) for x in a], **{n: realize(x) for n, x in k.items()})
            return f(*a, **k)
        m = MODELS.get(f)
        if m is not None:
            return m(*a, **k)
        if isinstance(s, types.ModuleType) or s is None:
            if (has_sym(a) or has_sym(k)) and f not in TRANSPARENT:
                K.limits.append("realized:" + getattr(f, "__qualname__", str(f)))
                return f(*[realize(x) for x in a], **{n: realize(x) for n, x in k.items()})
        elif isinstance(s, dict):
            h = METHODS[dict].get(f.__name__)
            if h is not None:
                return h(s, *a, **k)
        return f(*a, **k)
    if t is types.BuiltinFunctionType:
        m = MODELS.get(f)
        if m is not None:
            return m(*a, **k)
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    return f(*a, **k)


# -- builtin types as callables --------------------------------------------------------------
def _t_str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, Sym) or (type(x) is str):
            if isinstance(x, SymBytes):
                return realize(x).__str__()
            return tostr(x)
        return resolve(str(x))
    if a and isinstance(a[0], SymBytes):
        return a[0].s
    return str(*a, **k)


def _t_int(*a, **k):
    if a and isinstance(a[0], SymInt):
        return a[0]
    if a and isinstance(a[0], SymBool):
        return sym.mkint(SymInt.lift(a[0]))
    x = a[0] if a else None
    if isinstance(x, SymBytes):
        x = x.s
    if type(x) is str:
        x = resolve(x)
    if isinstance(x, SymStr) and len(a) == 1:
        import z3

        if isinstance(x, CharStr):
            x2 = x.strip()
            if type(x2) is str:
                return int(x2)
            cs = x2.cs
            neg = False
            if cs and len(cs) > 1:
                if sym._ceq(cs[0], 45):
                    neg, cs = True, cs[1:]
                elif sym._ceq(cs[0], 43):
                    cs = cs[1:]
            ok = bool(cs) and bool(sym.sand(*[sym._rng(c, 48, 57) for c in cs]))
            if not ok:
                raise ValueError("invalid literal for int() with base 10")
            v = z3.IntVal(0)
            for c in cs:
                v = v * 10 + (c - 48)
            return sym.mkint(-v if neg else v)
        # exactly the decimal renderings this engine produces
        if z3.is_app(x.z) and x.z.decl().name() == "ite":
            c, p, n = x.z.children()
            if p.decl().name() == "int.to.str" and z3.is_true(z3.simplify(c == (p.arg(0) >= 0))):
                return SymInt(p.arg(0))
        if K.branch(z3.InRe(x.z, z3.Plus(z3.Range("0", "9")))):
            return SymInt(z3.StrToInt(x.z))
        if K.branch(z3.InRe(x.z, z3.Concat(z3.Re("-"), z3.Plus(z3.Range("0", "9"))))):
            return SymInt(-z3.StrToInt(z3.SubString(x.z, 1, z3.Length(x.z))))
        return int(realize(x))
    return int(*[realize(v) for v in a], **k)


def _t_bool(*a):
    if a and isinstance(a[0], SymBool):
        return a[0]
    if a and isinstance(a[0], Sym):
        return sym.mkbool(zb(a[0]))
    return bool(*a)


def _t_set(*a):
    return mkset(*a) if a else set()


def _t_frozenset(*a):
    return frozenset(mkset(*a)) if a else frozenset()


def _t_dict(*a, **k):
    if not K.symkeys and not (a and isinstance(a[0], (list, tuple)) and has_sym(a[0], 3)):
        return dict(*a, **k)
    d = {}
    if a:
        _d_update(d, a[0])
    for n, v in k.items():
        setitem(v, d, n)
    return d


def _t_type(*a):
    if len(a) == 1 and isinstance(a[0], Sym):
        return a[0].__class__
    return type(*a)


def _t_bytes(*a, **k):
    if a and isinstance(a[0], SymBytes):
        return a[0]
    if a and isinstance(a[0], SymStr):
        return SymBytes(a[0])
    return bytes(*a, **k)


def _t_float(x=0.0):
    if isinstance(x, SymInt):
        return x
    return float(realize(x))


TYPES = {
    str: _t_str, int: _t_int, bool: _t_bool, set: _t_set, frozenset: _t_frozenset,
    dict: _t_dict, type: _t_type, bytes: _t_bytes, float: _t_float,
}


# -- methods of concrete builtin objects -----------------------------------------------------
def _d_get(d, k, default=None):
    if not K.symkeys and not _symkey(k):
        return d.get(k, default)
    f = _find(d, k)
    return default if f is _MISS else dict.__getitem__(d, f)


_ND = object()


def _d_pop(d, k, default=_ND):
    f = _find(d, k)
    if f is _MISS:
        if default is _ND:
            raise KeyError(k)
        return default
    return dict.pop(d, f)


def _d_setdefault(d, k, default=None):
    f = _find(d, k)
    if f is _MISS:
        setitem(default, d, k)
        return default
    return dict.__getitem__(d, f)


def _d_update(d, *a, **k):
    if not K.symkeys and not (a and isinstance(a[0], (list, tuple)) and has_sym(a[0], 3)):
        return d.update(*a, **k)
    if a:
        o = a[0]
        if hasattr(o, "keys"):
            for x in list(o.keys()):
                setitem(o[x] if not isinstance(o, dict) else dict.__getitem__(o, x), d, x)
        else:
            for x, v in o:
                setitem(v, d, x)
    for n, v in k.items():
        setitem(v, d, n)


def _d_fromkeys(d, it, v=None):
    return mkdict([(x, v) for x in it])


def _s_add(s, x):
    setadd(s, x)


def _s_discard(s, x):
    f = _find(s, x)
    if f is not _MISS:
        set.discard(s, f)


def _s_remove(s, x):
    f = _find(s, x)
    if f is _MISS:
        raise KeyError(x)
    set.discard(s, f)


def _s_update(s, *its):
    for it in its:
        for x in it:
            setadd(s, x)


def _s_diff(s, *its):
    r = set(s)
    for it in its:
        r = sub(r, mkset(it))
    return r


def _s_inter(s, *its):
    r = set(s)
    for it in its:
        r = band(r, mkset(it))
    return r


def _s_union(s, *its):
    r = set(s)
    for it in its:
        r = bor(r, mkset(it))
    return r


def _s_issubset(s, it):
    return _issub(s, mkset(it))


def _s_issuperset(s, it):
    return _issub(mkset(it), s)


def _s_isdisjoint(s, it):
    return len(_s_inter(s, it)) == 0


def _s_symdiff(s, it):
    return bxor(set(s), mkset(it))


def _s_diff_update(s, *its):
    r = _s_diff(s, *its)
    s.clear()
    for x in r:
        set.add(s, x)


def _s_inter_update(s, *its):
    r = _s_inter(s, *its)
    s.clear()
    for x in r:
        set.add(s, x)


_SETM = {
    "add": _s_add, "discard": _s_discard, "remove": _s_remove, "update": _s_update,
    "difference": _s_diff, "intersection": _s_inter, "union": _s_union, "issubset": _s_issubset,
    "issuperset": _s_issuperset, "isdisjoint": _s_isdisjoint, "symmetric_difference": _s_symdiff,
    "difference_update": _s_diff_update, "intersection_update": _s_inter_update,
}


def _l_index(l, x, *a):
    if a:
        return l.index(x, *a)
    for i, y in enumerate(l):
        if eq(y, x):
            return i
    raise ValueError("not in list")


def _l_remove(l, x):
    for i, y in enumerate(l):
        if eq(y, x):
            list.pop(l, i)
            return
    raise ValueError("list.remove(x): x not in list")


def _l_count(l, x):
    return builtins.sum(1 for y in l if eq(y, x))


def _st_join(s, it):
    it = list(it)
    if not has_sym(it):
        return s.join(it)
    return sym.join(s, it)


def _st_format(s, *a, **k):
    if has_sym(a) or has_sym(k):
        return _format(s, a, k)
    return s.format(*a, **k)


def _st_startswith(s, p, *a):
    r = resolve(s)
    if r is not s:
        return r.startswith(p, *a)
    if has_sym(p):
        import z3

        if isinstance(p, tuple):
            return sor(*[_st_startswith(s, x) for x in p])
        p = resolve(p)
        if isinstance(p, CharStr):
            return p == s[: len(p)] if len(p) <= len(s) else False
        if not a:
            return sym.mkbool(z3.PrefixOf(p.z, z3.StringVal(s)))
    return s.startswith(realize(p), *a)


def _st_endswith(s, p, *a):
    r = resolve(s)
    if r is not s:
        return r.endswith(p, *a)
    if has_sym(p):
        import z3

        if isinstance(p, tuple):
            return sor(*[_st_endswith(s, x) for x in p])
        p = resolve(p)
        if isinstance(p, CharStr):
            return (p == s[len(s) - len(p):]) if len(p) <= len(s) else False
        if not a:
            return sym.mkbool(z3.SuffixOf(p.z, z3.StringVal(s)))
    return s.endswith(realize(p), *a)


def _b_join(s, it):
    it = list(it)
    if any(isinstance(x, SymBytes) for x in it):
        return SymBytes._w(sym.join(s.decode(), [x.s if isinstance(x, SymBytes) else x.decode("latin-1") for x in it]))
    return s.join(it)


def _b_decode(s, *a, **k):
    return resolve(s.decode(*a, **k))


def _st_encode(s, *a, **k):
    r = resolve(s)
    if isinstance(r, SymStr):
        return SymBytes(r)
    return s.encode(*a, **k)


METHODS = {
    dict: {
        "get": _d_get, "pop": _d_pop, "setdefault": _d_setdefault, "update": _d_update,
        "__getitem__": lambda d, k: getitem(d, k), "__contains__": lambda d, k: contains(k, d),
        "__setitem__": lambda d, k, v: setitem(v, d, k),
    },
    set: _SETM,
    frozenset: _SETM,
    list: {"index": _l_index, "remove": _l_remove, "count": _l_count},
    str: {
        "join": _st_join, "format": _st_format, "startswith": _st_startswith,
        "endswith": _st_endswith, "encode": _st_encode,
    },
    bytes: {"join": _b_join, "decode": _b_decode},
}


# -- builtin functions -----------------------------------------------------------------------
def _len(x):
    if type(x) is str:
        x = resolve(x)
    if isinstance(x, (SymStr, SymBytes)):
        return x.length()
    return len(x)


def _minmax(f, isless):
    def g(*a, **k):
        key = k.get("key")
        if len(a) == 1 and hasattr(a[0], "__next__"):
            a = (list(a[0]),)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if key is None and xs and any(isinstance(x, SymInt) for x in xs):
            import z3

            if all(isinstance(x, SymInt) or type(x) is int for x in xs):
                r = SymInt.lift(xs[0])
                for x in xs[1:]:
                    e = SymInt.lift(x)
                    r = z3.If(e < r if isless else e > r, e, r)
                return sym.mkint(r)
        return f(*a, **k)

    return g


def _isinstance(o, c):
    return isinstance(o, c)


def _sorted(it, **k):
    xs = list(it)
    if len(xs) > 4 and any(isinstance(x, SymStr) for x in xs) and not k:
        xs = [realize(x) for x in xs]
    return sorted(xs, **k)


def _sum(it, start=0):
    for x in it:
        start = start + x
    return start


def _json_dumps(o, *a, **k):
    if has_sym(o, 12):
        return K.make_opaque(_snap(o), "j")
    return _dumps(o, *a, **k)


def _snap(o):
    """Immutable snapshot of what JSON would carry."""
    if isinstance(o, dict):
        return mkdict([(kk, _snap(v)) for kk, v in o.items()])
    if isinstance(o, (list, tuple)):
        return [_snap(v) for v in o]
    return o


def _json_loads(s, *a, **k):
    if isinstance(s, SymBytes):
        s = s.s
    if type(s) is bytes and b"zOpqj" in s:
        s = s.decode()
    if type(s) is str and K.opaque:
        v = K.opaque.get(s)
        if v is not None and s.startswith("zOpqj"):
            return _snap(v)
    if isinstance(s, SymStr):
        s = realize(s)
    return _loads(s, *a, **k)


def _open(*a, **k):
    return open(*[realize(x) for x in a], **k)


def _hash(x):
    return hash(x)


def _any(it):
    for x in it:
        if x:
            return True
    return False


def _getattr(o, n, *d):
    return getattr(o, realize(n), *d)


def _setattr(o, n, v):
    return setattr(o, realize(n), v)


def _hasattr(o, n):
    return hasattr(o, realize(n))


TRANSPARENT = {
    isinstance, issubclass, callable, id, print, repr, iter, next, map, filter, zip, enumerate,
    reversed, all, any, setattr, getattr, hasattr, len, abs, divmod,
}

MODELS.update(
    {
        len: _len, min: _minmax(min, True), max: _minmax(max, False), sorted: _sorted, sum: _sum,
        _dumps: _json_dumps, _loads: _json_loads, _json_dumps: _json_dumps, _json_loads: _json_loads, open: _open,
        getattr: _getattr, setattr: _setattr, hasattr: _hasattr,
    }
)
