"""C39: JWT tokens tell resource servers the truth."""
from cryptojwt.jws.jws import factory

from engine.harness_api import Harness
from harness.C01 import redeem
from harness.common import BIG
from harness.common import handed_out
from harness.common import response_args
from harness.world import ISS
from harness.world import NOW
from harness.world import World

KEYS = {"iss", "iat", "exp", "jti", "aud", "client_id", "sub", "scope", "sid", "token_class"}
# names that would be taken for instructions to the token handler
RESERVED = {"ttype", "usage_rules"}
CLASH = ["iss", "sub", "aud", "exp", "iat", "jti", "scope", "client_id", "sid", "token_class", "cnf", "ttype", "active", "usage_rules"]


def _world(oauth2):
    def tweak(conf):
        for c in ("token", "refresh"):
            conf["token_handler_args"][c]["kwargs"]["alg"] = "ES384" if c == "refresh" else "ES256"

    return World(oauth2=oauth2)


def oidc():
    return _world(False)


def oauth2():
    return _world(True)


def opened(ctx, w, value):
    """What anybody reads who has the provider's public keys."""
    f = factory(value)
    ctx.check(f is not None, "not a signed JWT")
    h = f.jwt.headers
    ctx.check(h["alg"] == "ES256", "not signed as configured")
    keys = [k for k in w.ctx.keyjar.get_issuer_keys(ISS) if k.kty == "EC"]
    r = ctx.call(f.verify_compact, value, keys)
    ctx.check(r.ok, "the signature is not the provider's")
    return f.jwt.payload()


def judge(ctx, w, value, want, now, seen):
    p = opened(ctx, w, value)
    ctx.check(p["iss"] == ISS, "the issuer is not this provider")
    ctx.check(p["sub"] == want["sub"], "the subject is not the session's")
    ctx.check(p["client_id"] == want["client"], "the client is not the one the token was given")
    ctx.check(ctx.eq(list(p["aud"]), list(want["aud"])), "the audience is not the grant's")
    ctx.check(ctx.eq(list(p["scope"]), list(want["scope"])), "the scope is not the token's")
    ctx.check(p["token_class"] == want["class"], "the kind of token is wrong")
    ctx.check(p["sid"] == want["sid"], "the session is another one")
    ctx.check(p["iat"] == now, "the time of issue is wrong")
    ctx.check(p["exp"] == now + want["lifetime"], "the expiry is not the configured lifetime after issue")
    ctx.check(p["jti"] not in seen, "two tokens have the same identifier")
    seen.append(p["jti"])
    for k in p:
        ctx.check(k in KEYS or k in want.get("more", {}), "a claim nobody configured: " + k)
    for k, v in want.get("more", {}).items():
        if k not in KEYS and k != "cnf":
            ctx.check(k in RESERVED or (k in p and p[k] == v), "a configured claim is not the user's")
    return p


def tokens(ctx, w):
    """Redeem (or get by the implicit flow), then refresh, at any time, with any lifetimes."""
    part = ctx.pick("part", ["who", "when", "more"])
    client, user = ctx.pick("who", [("client_1", "diana"), ("client_2", "diana"), ("client_1", "babs")] if part == "who" else [("client_1", "diana")])
    how = ctx.pick("how", ["code", "implicit"])
    mine = "token" if how == "implicit" else "code"
    words = [ctx.str("scope%d" % i, 8, 1) for i in range(ctx.params["n"] if part == "who" else 0)]
    for x in words:
        ctx.assume(ctx.neg(ctx.isin(" ", x)))
        ctx.assume(ctx.neg(ctx.isin(x, ["openid", "offline_access"])))
    scope = ["openid", "offline_access"] + words
    sid = w.session(client, user, scope=scope, response_type=mine)
    other = w.session("client_2" if client == "client_1" else "client_1", user, scope=["openid"])
    g = w.authorized(sid)
    w.authorized(other)
    g.sub = ctx.str("sub", 12, 1)
    g.expires_at = 0
    g.authentication_event["valid_until"] = 8 * BIG
    res = ctx.pick("resources", ["client", "other", "both"] if part == "who" else ["both"])
    name = ctx.str("resource", 12, 1)
    g.resources = {"client": [client], "other": [name], "both": [client, name]}[res]
    want = {"client": client, "sub": g.sub, "aud": g.resources, "scope": scope, "sid": sid}
    # who decides about the lifetime
    rules = {k: {a: b for a, b in v.items() if a != "expires_in"} for k, v in g.usage_rules.items()}
    rules["access_token"].setdefault("supports_minting", [])
    life = {}
    for cls in ("access_token", "refresh_token"):
        if part != "when":
            life[cls] = 3600
        elif ctx.flag(cls + " rule"):
            life[cls] = rules[cls]["expires_in"] = ctx.int(cls + ".expires_in", 1, BIG)
        else:
            life[cls] = w.sm.token_handler[cls].lifetime = ctx.int(cls + ".lifetime", 1, BIG)
    g.usage_rules = rules
    w.sm[sid] = g
    clash = "none" if part != "more" else ctx.pick("claim", CLASH + ["email"] if ctx.params["all"] else ["sub", "scope", "sid", "cnf", "email"])
    more = {}
    if clash != "none":
        rec = dict(w.ctx.userinfo.db[user])
        rec[clash] = more[clash] = ctx.str("value", 8, 1)
        w.ctx.userinfo.db[user] = rec
        g.claims = {"access_token": {clash: None}, "refresh_token": {clash: None}}
        w.sm.token_handler["access_token"].kwargs["base_claims"] = {clash: None}
    seen = []
    ctx.set_time(NOW)
    code = w.mint(sid, "authorization_code")
    now = ctx.int("now", NOW, NOW + 500)
    ctx.set_time(now)
    if how == "implicit":
        r = ctx.call(w.ep("authorization").create_authn_response, g.authorization_request, sid)
        ctx.check(r.ok, "no answer")
        ra = r.value["response_args"]
        ctx.cover("implicit")
    else:
        req = {"grant_type": "authorization_code", "code": code.value, "redirect_uri": "https://rp%s.example.com/cb" % client[-1],
               "client_id": client, "client_secret": "hemligt_for_" + client}
        r = redeem(ctx, w, req)
        ctx.check(r.ok and handed_out(r.value), "a good code is refused")
        ra = response_args(r.value)
        ctx.cover("redeemed")
    p = judge(ctx, w, ra["access_token"], dict(want, lifetime=life["access_token"], more=more, **{"class": "access_token"}), now, seen)
    if "expires_in" in ra:
        ctx.check(ra["expires_in"] == p["exp"] - now, "the answer gives another expiry than the token")
    rt = ra["refresh_token"] if "refresh_token" in ra else w.mint(sid, "refresh_token").value
    judge(ctx, w, rt, dict(want, lifetime=life["refresh_token"], **{"class": "refresh_token"}), now, seen)
    later = ctx.int("later", NOW, 2 * BIG)
    ctx.assume(ctx.all(later >= now, later <= now + life["refresh_token"]))
    ctx.set_time(later)
    req = {"grant_type": "refresh_token", "refresh_token": rt, "client_id": client, "client_secret": "hemligt_for_" + client}
    narrow = ctx.pick("narrow", ["no", "yes"] if part == "who" else ["no"])
    if narrow == "yes":
        want["scope"] = ["openid"] + words[:1]
        req["scope"] = " ".join(want["scope"])
    r = redeem(ctx, w, req)
    ctx.check(r.ok and handed_out(r.value), "a good refresh token is refused")
    ra = response_args(r.value)
    p = judge(ctx, w, ra["access_token"], dict(want, lifetime=life["access_token"], more=more, **{"class": "access_token"}), later, seen)
    if "expires_in" in ra:
        ctx.check(ra["expires_in"] == p["exp"] - later, "the answer gives another expiry than the token")
    ctx.cover("refreshed")


def both(name, world):
    return Harness(name, tokens, world, covers=["implicit", "redeemed", "refreshed"], quick={"n": 1, "all": True}, thorough={"n": 2, "all": True},
                   bounds="two clients, two users; any subject, scope words, resource, lifetimes, times; a configured user claim with a clashing name; redeemed, refreshed and by the implicit flow")


HARNESSES = [both("oidc", oidc), both("oauth2", oauth2)]
