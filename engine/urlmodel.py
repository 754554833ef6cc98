"""The standard library's URL parsing, executed symbolically: its own source, instrumented like the code under test.

Only ``unquote`` (which works on bytes through a table) is rewritten over characters.
"""
import inspect
import urllib.parse as _u

import z3

from engine import instrument
from engine import sym
from engine.sym import CharStr
from engine.sym import K
from engine.sym import mkchars

NAMES = ("_splitparams", "_splitnetloc", "urlsplit", "urlparse", "urlunsplit", "urlunparse", "parse_qsl", "parse_qs")


def _isin(c, lo, hi):
    if isinstance(c, int):
        return lo <= c <= hi
    return K.branch(z3.And(c >= lo, c <= hi))


def _hex(c):
    """The value of a hexadecimal digit, or None."""
    if _isin(c, 48, 57):
        return c - 48
    if _isin(c, 65, 70):
        return c - 55
    if _isin(c, 97, 102):
        return c - 87
    return None


def _digit(c):
    """Case split over the hexadecimal digits."""
    if isinstance(c, int):
        return int(chr(c), 16)
    for d in "0123456789abcdefABCDE":
        if K.branch(c == ord(d)):
            return int(d, 16)
    return 15


def unquote(string, encoding="utf-8", errors="replace"):
    cs = CharStr.chars_of(string)
    if cs is None:
        return _u.unquote(sym.realize(string), encoding, errors)
    out, i, high = [], 0, []

    def flush():
        if high:
            out.extend(ord(c) for c in bytes(high).decode(encoding, errors))
            high.clear()

    while i < len(cs):
        if _isin(cs[i], 37, 37) and i + 2 < len(cs):
            a = _hex(cs[i + 1])
            b = _hex(cs[i + 2]) if a is not None else None
            if a is not None and b is not None:
                v = a * 16 + b
                if _isin(v, 0, 127):
                    flush()
                    out.append(v)
                else:
                    # bytes of non-ASCII characters: one case per value
                    high.append(_digit(cs[i + 1]) * 16 + _digit(cs[i + 2]))
                i += 3
                continue
        flush()
        out.append(cs[i])
        i += 1
    flush()
    return mkchars(out)


def unquote_plus(string, encoding="utf-8", errors="replace"):
    return unquote(string.replace("+", " "), encoding, errors)


_SAFE = frozenset(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~")


def quote(string, safe="/", encoding="utf-8", errors="strict"):
    """ASCII characters only (wider ones are concretised)."""
    cs = CharStr.chars_of(string)
    if cs is None:
        return _u.quote(sym.realize(string), safe, encoding, errors)
    ok = _SAFE | set(sym.realize(safe).encode())
    out = []
    for c in cs:
        if isinstance(c, int):
            out.extend(ord(x) for x in _u.quote(chr(c), safe))
            continue
        if not _isin(c, 0, 127):
            K.limits.append("realized:quote")
            return _u.quote(sym.realize(string), safe, encoding, errors)
        if K.branch(z3.Or(*[z3.And(c >= a, c <= b) for a, b in _runs(ok)])):
            out.append(c)
            continue
        hi, lo = c / 16, c % 16
        out.extend([37, z3.If(hi < 10, hi + 48, hi + 55), z3.If(lo < 10, lo + 48, lo + 55)])
    return mkchars(out)


def quote_plus(string, safe="", encoding="utf-8", errors="strict"):
    return quote(string, sym.realize(safe) + " ", encoding, errors).replace(" ", "+")


def _runs(codes):
    out = []
    for c in sorted(codes):
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return out


def _build():
    src = []
    for n in NAMES:
        f = getattr(_u, n)
        s = inspect.getsource(getattr(f, "__wrapped__", f))
        src.append("\n".join(l for l in s.splitlines() if not l.startswith("@")))
    ns = dict(vars(_u))
    ns.update(unquote=unquote, unquote_plus=unquote_plus,
              _coerce_args=lambda *a: tuple(a) + (lambda x: x,))
    code = instrument.transform("\n\n".join(src), "urllib_parse_model", "urllib.parse", False)
    exec(code, ns)
    return ns


NS = _build()


def model(name):
    own = {"unquote": unquote, "unquote_plus": unquote_plus, "quote": quote, "quote_plus": quote_plus}
    return own.get(name) or NS.get(name)
