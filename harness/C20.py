"""C20: user info only for an active access token of a live grant, about the right user."""
from engine.harness_api import Harness
from harness.common import BIG
from harness.common import all_tokens
from harness.common import outcome
from harness.common import sym_item
from harness.common import sym_now
from harness.world import NOW
from harness.world import USERS
from harness.world import World
from harness.world import oidc_world

KINDS = ["access_token", "refresh_token", "authorization_code", "id_token", "garbage"]


def opaque_world():
    return World(jwt_tokens=False)


def ask(ctx, w, value, how="header", extra=None):
    """Present a token at the user info endpoint; the released claims or None."""
    ep = w.ep("userinfo")
    if how == "header":
        r = ctx.call(ep.parse_request, dict(extra or {}), http_info={"headers": {"authorization": "Bearer " + value}})
    else:
        r = ctx.call(ep.parse_request, dict(extra or {}, access_token=value), http_info={"headers": {}})
    if not r.ok:
        return r, None
    if "error" in r.value:
        return r, None
    r = ctx.call(ep.process_request, r.value)
    if not r.ok or "response_args" not in r.value:
        return r, None
    ra = r.value["response_args"]
    if "error" in ra:
        return r, None
    return r, ra


CLAIMS = {"userinfo": {"name": None, "email": None, "nickname": None, "phone_number": None}}


def token_of(ctx, w, sid, kind):
    code = w.mint(sid, "authorization_code")
    if kind == "authorization_code":
        return code
    return w.mint(sid, kind, based_on=code)


SCOPES = [["openid", "profile", "email"], ["openid", "offline_access"], ["openid"]]


def gate(ctx, w):
    scope = ctx.pick("scope", SCOPES)
    sid1 = w.session("client_1", user="diana", scope=list(scope), claims=CLAIMS)
    g1 = w.authorized(sid1)
    sid2 = w.session("client_2", user="babs", scope=list(scope), claims=CLAIMS)
    g2 = w.authorized(sid2)
    kind = ctx.pick("kind", KINDS)
    whose = ctx.pick("whose", ["diana", "babs"])
    sid, g = (sid1, g1) if whose == "diana" else (sid2, g2)
    base = token_of(ctx, w, sid, "access_token" if kind == "garbage" else kind)
    value = base.value if kind != "garbage" else base.value[:-8] + "AAAAAAAA"
    now = sym_now(ctx)
    s = sym_item(ctx, "token", base)
    if ctx.flag("limited"):
        base.usage_rules = dict(base.usage_rules, max_usage=2)
        s.max_usage = 2
    sg = sym_item(ctx, "grant", g, used=False)
    vu = ctx.int("authn.valid_until", 1, BIG)
    g.authentication_event["valid_until"] = vu
    how = ctx.pick("how", ["header", "body"])
    extra = ctx.pick("extra", [{}, {"client_id": "client_1"}, {"client_id": "client_2"}])
    r, claims = ask(ctx, w, value, how, extra)
    ctx.note(outcome(ctx, r))
    if claims is not None:
        ctx.cover("claims")
        ctx.check(kind == "access_token", "user info released for something that is not an access token")
        ctx.check(s.active(ctx, now), "user info released for a token that is not active")
        ctx.check(sg.active(ctx, now), "user info released although the grant is not active")
        ctx.check(now <= vu, "user info released after the authentication ended")
        ctx.check(claims["sub"] == g.sub, "user info about another subject")
        for k, v in claims.items():
            if k != "sub":
                ctx.check(k in USERS[whose] and USERS[whose][k] == v, "a claim of another user released")
    else:
        ctx.cover("refused")
        live = ctx.all(kind == "access_token", s.active(ctx, now), sg.active(ctx, now), now <= vu, now <= NOW + 500)
        if how == "header":
            ctx.check(ctx.neg(live), "an active access token is refused at user info")


def history(ctx, w):
    """A token of a live session; arbitrary revocations of a token of its family before it is used."""
    sid = w.session("client_1", user="diana", scope=["openid", "offline_access"])
    g = w.authorized(sid)
    code = w.mint(sid, "authorization_code")
    at1 = w.mint(sid, "access_token", based_on=code)
    rt = w.mint(sid, "refresh_token", based_on=code)
    at2 = w.mint(sid, "access_token", based_on=rt)
    named = {"code": code, "at1": at1, "rt": rt, "at2": at2}
    below = {"code": ["at1", "rt", "at2"], "rt": ["at2"], "at1": [], "at2": []}
    target = ctx.pick("revoked", ["none", "code", "at1", "rt", "at2"])
    dead = []
    if target != "none":
        rec = ctx.flag("recursive")
        via = ctx.pick("via", ["manager", "grant"])
        if via == "manager":
            w.sm.revoke_token(sid, named[target].value, recursive=rec)
        else:
            g.revoke_token(value=named[target].value, recursive=rec)
        dead = [target] + (below[target] if rec else [])
    for n in ("at1", "at2"):
        r, claims = ask(ctx, w, named[n].value)
        ctx.check((claims is None) == (n in dead), "user info does not follow the revocation")
        ctx.cover("claims" if claims else "refused")


HARNESSES = [
    Harness("jwt_gate", gate, oidc_world, covers=["claims", "refused"],
            bounds="every token kind of either of two users, arbitrary state of token, grant and authentication, arbitrary clock; header and body"),
    Harness("opaque_gate", gate, opaque_world, covers=["claims", "refused"], bounds="as jwt_gate with opaque tokens"),
    Harness("history", history, oidc_world, covers=["claims", "refused"],
            bounds="one family of four tokens, every single revocation"),
]
