"""C21: introspection reports active exactly what is active, truthfully."""
from engine.harness_api import Harness
from harness.C20 import opaque_world
from harness.common import BIG
from harness.common import outcome
from harness.common import sym_item
from harness.common import sym_now
from harness.world import ISS
from harness.world import NOW
from harness.world import oauth2_world
from harness.world import oidc_world

KINDS = ["access_token", "refresh_token", "authorization_code", "id_token", "garbage", "junk"]


def introspect(ctx, w, value, client="client_1", hint=None):
    ep = w.ep("introspection")
    req = {"token": value, "client_id": client, "client_secret": "hemligt_for_" + client}
    if hint:
        req["token_type_hint"] = hint
    r = ctx.call(ep.parse_request, req)
    if not r.ok:
        return r, None
    if "error" in r.value:
        return r, None
    r = ctx.call(ep.process_request, r.value, release=ep.kwargs.get("release"))
    if not r.ok or "response_args" not in r.value:
        return r, None
    return r, r.value["response_args"]


def gate(ctx, w):
    scope_g = ["openid", "profile"]
    sid1 = w.session("client_1", user="diana", scope=scope_g)
    g1 = w.authorized(sid1)
    sid2 = w.session("client_2", user="babs", scope=["openid"])
    g2 = w.authorized(sid2)
    kinds = [k for k in KINDS if not (w.oauth2 and k == "id_token")]
    kind = ctx.pick("kind", kinds)
    owner = ctx.pick("owner", ["client_1", "client_2"])
    sid, g = (sid1, g1) if owner == "client_1" else (sid2, g2)
    code = w.mint(sid, "authorization_code")
    base = code
    if kind == "id_token":
        base = w.mint(sid, "id_token", based_on=code)
    elif kind != "authorization_code":
        base = w.mint(sid, "refresh_token" if kind == "refresh_token" else "access_token", based_on=code)
    value = base.value
    if kind == "garbage":
        value = value[:-8] + "AAAAAAAA"
    elif kind == "junk":
        value = ctx.pick("junk", ["", "x", "a.b.c", "AAAA" * 20, "å"])
    now = sym_now(ctx)
    s = sym_item(ctx, "token", base)
    base.issued_at = ctx.int("token.issued_at", 1, BIG)
    if ctx.flag("limited"):
        base.usage_rules = dict(base.usage_rules, max_usage=2)
        s.max_usage = 2
    sg = sym_item(ctx, "grant", g, used=False)
    tscope, res = ctx.pick("own", [([], []), (["openid"], ["https://api.example.com"]), ([], ["https://api.example.com"])])
    base.scope = list(tscope)
    base.resources = list(res)
    caller = "client_1" if tscope else "client_2"
    hint = ctx.pick("hint", [None, "refresh_token"])
    r, ra = introspect(ctx, w, value, caller, hint)
    ctx.note(outcome(ctx, r))
    if kind == "junk" and value == "":
        ctx.check(ra is None or not ra.get("active"), "an empty token counts as active")
        return
    if ra is None:
        ctx.fail("introspection gives no answer")
        return
    good = ctx.all(kind in ("access_token", "refresh_token"), s.active(ctx, now), sg.active(ctx, now))
    if ra["active"]:
        ctx.cover("active")
        ctx.check(good, "introspection reports something active that is not")
        ctx.check(ra["client_id"] == owner, "introspection reports another client")
        ctx.check(ra["sub"] == g.sub, "introspection reports another subject")
        ctx.check(ra["iss"] == ISS, "introspection reports another issuer")
        if "exp" in ra:
            ctx.check(ra["exp"] == s.expires_at, "introspection reports another expiry")
        else:
            ctx.check(s.expires_at == 0, "introspection hides the expiry")
        ctx.check(ra["iat"] == base.issued_at, "introspection reports another issue time")
        want = tscope or (scope_g if owner == "client_1" else ["openid"])
        ctx.check(sorted(_split(ra["scope"])) == sorted(want), "introspection reports another scope")
        if res:
            ctx.check(list(ra["aud"]) == res, "introspection reports another audience")
        else:
            ctx.check(list(ra.get("aud", [])) == list(g.resources), "introspection reports another audience")
        ctx.check(ra.get("username", "diana" if owner == "client_1" else "babs") ==
                  ("diana" if owner == "client_1" else "babs"), "introspection reports another user")
    else:
        ctx.cover("inactive")
        ctx.check(ctx.neg(ctx.all(good, now <= NOW + 500)), "an active token is reported inactive")
        ctx.check(list(ra.keys()) == ["active"], "an inactive answer carries more than that")


def _split(s):
    return s.split(" ") if isinstance(s, str) else list(s)


def families(ctx, w):
    """Tokens refreshed with a narrower scope: the scope reported is the token's own."""
    sid = w.session("client_1", scope=["openid", "profile", "offline_access"])
    g = w.authorized(sid)
    code = w.mint(sid, "authorization_code")
    rt = w.mint(sid, "refresh_token", based_on=code)
    at = w.mint(sid, "access_token", based_on=rt)
    sc = {"code": None, "rt": None, "at": None}
    for n, t in (("code", code), ("rt", rt), ("at", at)):
        t.scope = []
        if ctx.flag("own_" + n):
            sc[n] = t.scope = [["openid", "profile"], ["openid"], ["profile"]][["code", "rt", "at"].index(n)]
    for n, t, chain in (("at", at, ["at", "rt", "code"]), ("rt", rt, ["rt", "code"])):
        r, ra = introspect(ctx, w, t.value)
        want = g.scope
        for c in chain:
            if sc[c]:
                want = sc[c]
                break
        ctx.check(ra is not None and ra["active"], "an active token is reported inactive")
        ctx.check(sorted(_split(ra["scope"])) == sorted(want), "introspection reports another scope")
    ctx.cover("done")


HARNESSES = [
    Harness("oidc_gate", gate, oidc_world, covers=["active", "inactive"],
            bounds="every token kind and garbage, arbitrary state of token and grant, arbitrary clock, two owners, two callers"),
    Harness("oauth2_gate", gate, oauth2_world, covers=["active", "inactive"], bounds="as oidc_gate"),
    Harness("opaque_gate", gate, opaque_world, covers=["active", "inactive"], bounds="as oidc_gate with opaque tokens"),
    Harness("families", families, oidc_world, covers=["done"], bounds="a chain of three tokens, each with or without a scope of its own"),
]
