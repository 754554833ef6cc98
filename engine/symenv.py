"""Models of library code the symbolic run does not look into (each one is listed in DESIGN.md).

Symbolic strings travel through injective encoders (base64, url-encoding, authenticated encryption,
JWS/JWE, JSON) as opaque handles: the real encoder runs on a handle, the real decoder gives it back,
and the handle is resolved to the symbolic value it stands for.  That is the ideal-functionality
assumption "decode(encode(x)) == x, and nobody can produce encode(x) without the key".
Digests are injective uninterpreted functions that agree with the real digest on concrete inputs.
"""
import base64
import hashlib
import hmac
import json
import urllib.parse

import z3

from engine import rt

from engine import sym
from engine.sym import CharStr
from engine.sym import K
from engine.sym import Sym
from engine.sym import SymBytes
from engine.sym import SymInt
from engine.sym import SymStr
from engine.sym import has_sym
from engine.sym import realize
from engine.sym import resolve


def deep_handle(x):
    if isinstance(x, SymBytes):
        return x._handle()
    if isinstance(x, SymStr):
        return x._handle()
    if isinstance(x, SymInt):
        return sym.str_of_int(x)._handle()
    if isinstance(x, Sym):
        return realize(x)
    if isinstance(x, dict):
        return {deep_handle(k): deep_handle(v) for k, v in x.items()}
    if isinstance(x, list):
        return [deep_handle(v) for v in x]
    if isinstance(x, tuple):
        return tuple(deep_handle(v) for v in x)
    return x


def deep_resolve(x):
    if type(x) is str:
        return resolve(x)
    if type(x) is dict:
        return rt.mkdict([(resolve(k) if type(k) is str else k, deep_resolve(v)) for k, v in x.items()])
    if type(x) is list:
        return [deep_resolve(v) for v in x]
    if type(x) is tuple:
        return tuple(deep_resolve(v) for v in x)
    return x


def transport(f, resolve_result=False):
    def g(*a, **k):
        if K.active and (has_sym(a) or has_sym(k)):
            a = deep_handle(a)
            k = deep_handle(k)
        r = f(*a, **k)
        return deep_resolve(r) if resolve_result and K.active and K.opaque else r

    return g


def _uf(alg, arg, outlen):
    """Injective uninterpreted function of a symbolic string."""
    f = z3.Function("H_" + alg, z3.StringSort(), z3.StringSort())
    apps = K.uf.setdefault(alg, [])
    z = z3.simplify(arg.z)
    r = f(z)
    for other, val in apps:
        if other.eq(z):
            return SymStr(val)
    K.add(z3.Length(r) >= 16)  # the exact length makes the string solver crawl
    for other, val in apps:
        K.add((val == r) == (other == z))
    apps.append((z, r))
    return SymStr(r)


def _uf_concrete(alg, s, out):
    apps = K.uf.setdefault(alg, [])
    z = z3.StringVal(s)
    r = z3.StringVal(out)
    for other, val in apps:
        if other.eq(z):
            return
    for other, val in apps:
        if not z3.is_string_value(other):
            K.add((val == r) == (other == z))
    apps.append((z, r))


class SymDigest:
    def __init__(self, name, data, size):
        self.name, self.data, self.digest_size = name, data, size

    def update(self, d):
        self.data = SymBytes._w(SymBytes._u(self.data) + SymBytes._u(d))

    def hexdigest(self):
        return _uf(self.name + "_hex", self.data.s, 2 * self.digest_size)

    def digest(self):
        return SymBytes(_uf(self.name + "_raw", self.data.s, self.digest_size))


def _hash_model(fn):
    name = fn().name
    size = fn().digest_size

    def g(data=b"", **k):
        if isinstance(data, SymBytes):
            s = resolve(data.s)
            if isinstance(s, SymStr):
                return SymDigest(name, data, size)
            data = s.encode()
        if K.active and isinstance(data, bytes) and b"zOpq" in data:
            try:
                s = resolve(data.decode())
                if isinstance(s, SymStr):
                    return SymDigest(name, SymBytes(s), size)
            except UnicodeDecodeError:
                pass
        h = fn(data, **k)
        if K.active:
            try:
                _uf_concrete(name + "_hex", data.decode(), h.hexdigest())
            except UnicodeDecodeError:
                pass
        return h

    return g


def _hmac_new(key, msg=None, digestmod="", **k):
    if K.active and isinstance(msg, SymBytes):
        kk = key.decode("latin-1") if isinstance(key, bytes) else SymBytes._u(key)
        nm = digestmod if isinstance(digestmod, str) else digestmod().name
        d = SymDigest("hmac_" + nm, SymBytes._w(kk + "\x00" + msg.s), hashlib.new(nm).digest_size)
        return d
    return _real_hmac(realize(key), realize(msg) if msg is not None else None, digestmod, **k)


_real_hmac = hmac.new


def _cmpdigest(a, b):
    return rt.eq(a, b)


def _quote_model(f):
    """Character by character where the characters are known one by one, as an opaque handle otherwise."""
    t = transport(f)

    def g(s, *a, **k):
        if K.active and isinstance(s, CharStr):
            from engine import urlmodel

            return urlmodel.model(f.__name__)(s, *a, **k)
        return t(s, *a, **k)

    return g


def _chars(v):
    """The characters of a value that is known character by character, or None."""
    if isinstance(v, SymBytes):
        v = v.s
    return v if isinstance(v, CharStr) else None


def _urlencode_model(f):
    t = transport(f)

    def g(query, doseq=False, *a, **k):
        if K.active and not a and not k and has_sym(query):
            from engine import urlmodel

            pairs = []
            for n, v in (query.items() if hasattr(query, "items") else query):
                for x in (v if doseq and isinstance(v, (list, tuple)) else [v]):
                    pairs.append((n, x))
            if any(_chars(n) is not None or _chars(x) is not None for n, x in pairs):
                out = ""
                for n, x in pairs:
                    for j, y in enumerate((n, x)):
                        c = _chars(y)
                        if c is not None:
                            e = urlmodel.quote_plus(c)
                        elif has_sym(y):
                            e = f({"": deep_handle(y)})[1:]
                        else:
                            e = urllib.parse.quote_plus(y if isinstance(y, bytes) else str(y))
                        out = out + ("=" if j else "&" if out else "") + e
                return out
        return t(query, doseq, *a, **k)

    return g


def _b64_model(f):
    """An encoded digest is a function of the digest, so that encodings of equal digests are equal; else a handle."""
    t = transport(f)

    def g(s, *a, **k):
        if K.active and isinstance(s, SymBytes) and not a and not k:
            v = resolve(s.s)
            if isinstance(v, SymStr) and not isinstance(v, CharStr) and z3.is_app(v.z) and v.z.decl().name().startswith("H_"):
                return SymBytes(_uf(f.__module__ + f.__name__ + v.z.decl().name(), v, 16))
        return t(s, *a, **k)

    return g


def install():
    from cryptography.fernet import Fernet
    from cryptography.fernet import InvalidToken
    import cryptojwt.utils as cu

    M = rt.MODELS
    for n in ("sha1", "sha224", "sha256", "sha384", "sha512", "md5"):
        M[getattr(hashlib, n)] = _hash_model(getattr(hashlib, n))
    M[hmac.new] = _hmac_new
    M[hmac.compare_digest] = _cmpdigest
    import secrets

    M[secrets.compare_digest] = _cmpdigest
    for f in (base64.b64encode, base64.urlsafe_b64encode, base64.standard_b64encode, cu.b64e):
        M[f] = _b64_model(f)
    M[urllib.parse.urlencode] = _urlencode_model(urllib.parse.urlencode)
    for f in (urllib.parse.quote_plus, urllib.parse.quote):
        M[f] = _quote_model(f)
    for f in (urllib.parse.parse_qs, urllib.parse.parse_qsl):
        M[f] = _decode_model(f)
    for f in (urllib.parse.unquote, urllib.parse.unquote_plus, urllib.parse.urlparse, urllib.parse.urlsplit,
              base64.b64decode, base64.urlsafe_b64decode):
        M[f] = _decode_model(f)
    for f in (urllib.parse.urlunsplit, urllib.parse.urlunparse):
        M[f] = _unsplit_model(f)
    enc, dec = Fernet.encrypt, Fernet.decrypt

    def f_encrypt(self, data):
        return enc(self, data._handle() if isinstance(data, SymBytes) else data)

    def f_decrypt(self, token, ttl=None):
        if isinstance(token, SymBytes):
            token = realize(token)
        r = dec(self, token, ttl)
        return _resolve_bytes(r)

    M[enc] = f_encrypt
    M[dec] = f_decrypt
    from cryptojwt.jwe.aes import AES_GCMEncrypter
    from cryptojwt.jws.hmac import HMACSigner

    h_sign, h_verify = HMACSigner.sign, HMACSigner.verify

    def mac_sign(self, msg, key):
        if not (K.active and _symbolic_bytes(msg)):
            sig = h_sign(self, msg, key)
            _MACS[sig] = _Mac(key, msg.decode("latin-1"))
            return sig
        return K.make_opaque(_Mac(key, _text_of(msg)), "m").encode()

    def mac_verify(self, msg, sig, key):
        """Ideal MAC: verifies exactly what was signed with this key (nobody else can produce one)."""
        if not K.active:
            return h_verify(self, msg, sig, key)
        if isinstance(sig, SymBytes):
            t = resolve(sig.s)
            if not isinstance(t, str) or isinstance(t, SymStr):
                return False
            sig = t.encode()
        m = K.opaque.get(sig.decode("latin-1")) if isinstance(sig, bytes) else None
        if isinstance(m, _Mac):
            return m.key == key and bool(rt.eq(m.text, _text_of(msg)))
        if _symbolic_bytes(msg):
            # a real signature over known text
            m = _MACS.get(sig)
            return bool(m is not None and m.key == key and rt.eq(m.text, _text_of(msg)))
        return h_verify(self, msg, sig, key)

    M[h_sign] = mac_sign
    M[h_verify] = mac_verify
    a_enc, a_dec = AES_GCMEncrypter.encrypt, AES_GCMEncrypter.decrypt

    def aes_encrypt(self, msg, iv="", auth_data=None):
        return a_enc(self, msg._handle() if isinstance(msg, SymBytes) else msg, iv, auth_data)

    def aes_decrypt(self, cipher_msg, iv="", auth_data=None, tag=b""):
        return _resolve_bytes(
            a_dec(self, *[realize(x) if isinstance(x, SymBytes) else x for x in (cipher_msg, iv, auth_data, tag)]))

    M[a_enc] = aes_encrypt
    M[a_dec] = aes_decrypt
    # JSON: every module reaches it through the json module's attributes
    json.dumps = rt._json_dumps
    json.loads = rt._json_loads


_MACS = {}


class _Mac:
    def __init__(self, key, text):
        self.key, self.text = key, text


def _resolve_bytes(r):
    """What a decoder returns: the symbolic text its handle stands for."""
    if K.active and isinstance(r, bytes) and b"zOpq" in r:
        t = resolve(r.decode("latin-1"))
        if isinstance(t, SymStr):
            return SymBytes(t)
    return r


def _symbolic_bytes(b):
    return isinstance(b, SymBytes) or (isinstance(b, bytes) and b"zOpq" in b)


def _text_of(b):
    return resolve(b.s) if isinstance(b, SymBytes) else resolve(b.decode("latin-1"))


def _unsplit_model(f):
    def g(parts):
        if K.active and any(isinstance(x, Sym) for x in parts):
            from engine import urlmodel

            return urlmodel.model(f.__name__)(parts)
        return f(parts)

    return g


_URL = ("parse_qs", "parse_qsl", "unquote", "unquote_plus", "urlparse", "urlsplit")


def _decode_model(f):
    """Decoders of attacker-supplied text: handles pass through, raw symbolic text is concretised."""

    def g(s, *a, **k):
        if K.active:
            s = resolve(s) if type(s) is str else s
            if isinstance(s, CharStr) and f.__name__ in _URL:
                from engine import urlmodel

                return urlmodel.model(f.__name__)(s, *a, **k)
            if isinstance(s, (SymStr, SymBytes)):
                K.limits.append("realized:" + f.__name__)
                s = realize(s)
            elif has_sym(a) or has_sym(k):
                a = [realize(x) for x in a]
                k = {n: realize(v) for n, v in k.items()}
            r = f(s, *a, **k)
            if K.opaque and f.__name__ in ("parse_qs", "parse_qsl"):
                r = deep_resolve(r)
            return _resolve_bytes(r)
        return f(s, *a, **k)

    return g
