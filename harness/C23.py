"""C23: a cookie is accepted only as issued, and read back exactly."""
from cryptojwt.jwk.hmac import SYMKey

from engine.harness_api import Harness
from harness.world import NOW

from oidcop.cookie_handler import CookieHandler

SIGN = "ghsNKDDLshZTPn974nOsIGhedULrsqnsGoBFBLwUKuJhE2ch"
ENC = "NXi6HD473d_YS4exVRn7z9z23mGmvU641MuvKqH0o7Y"
OTHER = "jhw7382jsdk3n2kj3h4k2j3h4kj2h3k4jh2k3j4hk2j3h4kj"
OTHER_ENC = "AAAAAD473d_YS4exVRn7z9z23mGmvU641MuvKqH0o7Y"
KINDS = ["sign", "enc", "both"]
ALPHA = ":|% a1\"{}+\n"


def handler(kind, sign=SIGN, enc=ENC):
    kw = {}
    if kind in ("sign", "both"):
        kw["sign_key"] = SYMKey(k=sign)
    if kind in ("enc", "both"):
        kw["enc_key"] = SYMKey(k=enc)
    return CookieHandler(**kw)


def setup():
    return None


def roundtrip(ctx, w):
    kind = ctx.pick("keys", KINDS)
    h = handler(kind)
    v = ctx.chars("value", ctx.params["n"], 0, alphabet=ALPHA)
    t = ctx.chars("type", 2, 0, alphabet=":|%a")
    ts = ctx.pick("timestamp", [None, "1700000001", 1700000002])
    name = ctx.pick("name", ["oidc_op", "other"])
    ctx.assume(ctx.any(v != "", t != ""))
    ctx.set_time(NOW)
    kw = {} if ts is None else {"timestamp": ts}
    c = ctx.call(h.make_cookie_content, name, v, t, **kw)
    ctx.check(c.ok, "a cookie cannot be made")
    ctx.check(c.value["name"] == name, "the cookie has another name")
    ctx.check(kind == "sign" or not c.value["value"].startswith(v + "::"), "an encrypted cookie shows its value")
    got = ctx.call(h.parse_cookie, "oidc_op", [c.value])
    ctx.check(got.ok, "an issued cookie makes the parser fail")
    if name == "other":
        ctx.cover("other")
        ctx.check(not got.value, "a cookie with another name is read")
        return
    ctx.check(len(got.value) == 1, "an issued cookie is not read back")
    g = got.value[0]
    ctx.check(ctx.eq(g["value"], v), "the value read back differs")
    ctx.check(ctx.eq(g["type"], t), "the type read back differs")
    ctx.check(g["timestamp"] == str(ts or NOW), "the time read back differs")
    ctx.cover("read")


def opaque(ctx, w):
    """Values of any length (unbounded string), as the server writes them: a JSON document."""
    import json

    h = handler(ctx.pick("keys", KINDS))
    sid, state = ctx.str("sid", 30), ctx.str("state", 30)
    c = h.make_cookie_content("oidc_op", json.dumps({"sid": sid, "state": state}))
    got = ctx.call(h.parse_cookie, "oidc_op", [{"name": "x", "value": "y"}, {"value": c["value"]}, c, c])
    ctx.check(got.ok and len(got.value) == 2, "an issued cookie is not read back")
    for g in got.value:
        d = json.loads(g["value"])
        ctx.check(ctx.all(ctx.eq(d["sid"], sid), ctx.eq(d["state"], state)), "the value read back differs")
    ctx.cover("read")


def names(ctx, w):
    """A cookie is only read under exactly its own name."""
    h = handler(ctx.pick("keys", KINDS))
    issued = ctx.str("issued_name", 20)
    wanted = ctx.pick("wanted", ["oidc_op", "oidc_op_rp", "OIDC_OP", "a"])
    if ctx.flag("symbolic_wanted"):
        issued, wanted = wanted, issued
    c = h.make_cookie_content(issued, "v", "t")
    got = ctx.call(h.parse_cookie, wanted, [c])
    ctx.check(got.ok, "an issued cookie makes the parser fail")
    same = ctx.eq(issued, wanted)
    if got.value:
        ctx.cover("read")
        ctx.check(same, "a cookie with another name is read")
    else:
        ctx.cover("other")
        ctx.check(ctx.neg(same), "an issued cookie is not read back")


def accepted(ctx, h, cookies, issued, name="oidc_op"):
    r = ctx.call(h.parse_cookie, name, cookies)
    if not r.ok or not r.value:
        ctx.cover("nothing")
        return
    ctx.cover("something")
    for g in r.value:
        ctx.check(ctx.any(*[ctx.all(ctx.eq(g["value"], v), ctx.eq(g["type"], t), ctx.eq(g["timestamp"], ts))
                            for v, t, ts in issued]), "a cookie is accepted that was never issued")


def shifted(ctx, w):
    """A signed cookie: the parts rewritten, the signature of an issued one kept."""
    h = handler("sign")
    v, t, ts = ctx.pick("issued", [("a", "", "12"), ("a", "1", "12"), ("a:", ":", "1"), ("1", "", "1"), ("", "a", "12")])
    c = h.make_cookie_content("oidc_op", v, t, timestamp=ts)
    mac = c["value"].split("|")[-1]
    n = ctx.params["n"]
    p1 = ctx.chars("time", n, 0, alphabet="12a:%3A")
    p2 = ctx.chars("payload", n + 2, 0, alphabet="12a:%3A")
    accepted(ctx, h, [{"name": "oidc_op", "value": p1 + "|" + p2 + "|" + mac}], [(v, t, ts)])


def recombined(ctx, w):
    """Parts of two issued cookies (and junk) put together in any way."""
    kind = ctx.pick("keys", KINDS)
    reader = ctx.pick("reader", ["same", "other_sign", "other_enc", "other_both"])
    h = handler(kind)
    rd = h
    if reader != "same":
        rd = handler(kind, OTHER if reader in ("other_sign", "other_both") else SIGN,
                     OTHER_ENC if reader in ("other_enc", "other_both") else ENC)
    issued = [("a::b", "x", "1700000001"), ("c", "y|z", "1700000002")]
    cs = [h.make_cookie_content("oidc_op", v, t, timestamp=ts)["value"].split("|") for v, t, ts in issued]
    cross = ctx.pick("other_kind", [None] + [k for k in KINDS if k != kind]) if reader == "same" else None
    if cross:
        # a handler with the same keys but another set-up made the second one
        cs[1] = handler(cross).make_cookie_content("oidc_op", "c", "y|z", timestamp="1700000002")["value"].split("|")
    parts = []
    for i in range(ctx.pick("len", [2, 3, 4, 5])):
        src = ctx.pick("part%d" % i, ["first", "second", "junk"]) if i < 4 else "junk"
        if src == "junk":
            parts.append("1700000003" if i == 0 else "")
        else:
            x = cs[0 if src == "first" else 1]
            parts.append(x[i] if i < len(x) else "")
    same_keys = reader == "same" or (kind == "sign" and reader == "other_enc") or (kind == "enc" and reader == "other_sign")
    accepted(ctx, rd, [{"name": "oidc_op", "value": "|".join(parts)}], issued if same_keys else [])


HARNESSES = [
    Harness("roundtrip", roundtrip, setup, covers=["read", "other"], quick={"n": 3}, thorough={"n": 5},
            bounds="values up to n characters over separators, escapes, quotes, digits; types up to 2; all key set-ups"),
    Harness("names", names, setup, covers=["read", "other"], bounds="every name up to 20 characters, as issued or as asked for"),
    Harness("opaque", opaque, setup, covers=["read"], bounds="unbounded session identifier and state"),
    Harness("shifted", shifted, setup, covers=["nothing", "something"], quick={"n": 2}, thorough={"n": 3},
            bounds="every rewriting of time and payload over '12a:%3A' up to n and n+2 characters with an issued signature"),
    Harness("recombined", recombined, setup, covers=["nothing", "something"],
            bounds="up to five parts, each from one of two issued cookies (possibly from another key set-up) or junk; other keys"),
]
