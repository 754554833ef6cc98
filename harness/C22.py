"""C22: what an ID token says."""
from cryptojwt.jws.jws import factory
from cryptojwt.jws.utils import left_hash

from engine.harness_api import Harness
from harness.C01 import redeem
from harness.common import BIG
from harness.common import sym_now
from harness.world import ISS
from harness.world import NOW
from harness.world import jwks
from harness.world import oidc_world

ALGS = {"default": "HS256", "RS256": "HS256", "RS384": "HS384", "RS512": "HS512", "ES256": "HS256"}
HASHED = ["RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "ES256", "ES384"]
CLASH = ["iss", "sub", "aud", "exp", "iat", "nonce", "acr", "auth_time", "at_hash", "c_hash", "sid", "scope", "client_id", "jti",
         "code", "access_token", "session_id", "encrypt", "ttype", "usage_rules"]


def decode(ctx, value):
    f = factory(value)
    ctx.check(f is not None, "the ID token is not a signed JWT")
    return f.jwt.payload(), f.jwt.headers


def prepare(ctx, w, response_type="code", scope=("openid",)):
    """A session with an arbitrary authentication and subject; returns what its ID tokens have to say."""
    facts = {"client": ctx.pick("client", ["client_1", "client_2"])}
    extra = {}
    if ctx.flag("has_nonce"):
        extra["nonce"] = facts["nonce"] = ctx.str("nonce", 12, minlen=1)
    sid = w.session(facts["client"], scope=list(scope), response_type=response_type)
    g = w.sm[sid]
    for k, v in extra.items():
        g.authorization_request[k] = v
    facts["sub"] = g.sub = ctx.str("sub", 12, minlen=1)
    facts["auth_time"] = g.authentication_event["authn_time"] = ctx.int("authn_time", 1, BIG)
    facts["acr"] = g.authentication_event["authn_info"] = ctx.str("authn_info", 12, minlen=1)
    g.authentication_event["valid_until"] = BIG * 2
    facts["lifetime"] = w.sm.token_handler["id_token"].lifetime = ctx.int("lifetime", 1, BIG)
    alg = ctx.pick("alg", ["default", "RS512", "ES256"] if ctx.params.get("few", True) else list(ALGS))
    if alg != "default":
        w.ctx.cdb[facts["client"]]["id_token_signed_response_alg"] = alg
    facts["alg"] = alg
    return sid, facts


def judge(ctx, value, facts, now, code=None, token=None, bound=False):
    p, h = decode(ctx, value)
    ctx.check(p["iss"] == ISS, "the issuer is not this provider")
    ctx.check(list(p["aud"]) == [facts["client"]], "the audience is not the client")
    ctx.check(p["sub"] == facts["sub"], "the subject is not the session's")
    ctx.check(p["iat"] == now, "the time of issue is wrong")
    ctx.check(p["exp"] == now + facts["lifetime"], "the expiry is not the configured lifetime after issue")
    ctx.check(p["auth_time"] == facts["auth_time"], "the time of authentication is wrong")
    ctx.check(p["acr"] == facts["acr"], "the authentication class is wrong")
    if "nonce" in facts:
        ctx.check("nonce" in p and p["nonce"] == facts["nonce"], "the nonce is not the request's")
    else:
        ctx.check("nonce" not in p, "a nonce nobody asked for")
    if facts["alg"] != "default":
        ctx.check(h["alg"] == facts["alg"], "not signed the way the client registered")
    fn = ALGS[facts["alg"]]
    for name, comp in (("c_hash", code), ("at_hash", token)):
        if comp is not None:
            ctx.check(not bound or name in p, name + " is missing")
            if name in p:
                ctx.check(p[name] == left_hash(comp.encode("utf-8"), fn), name + " does not bind what is delivered with it")
        else:
            ctx.check(name not in p, name + " without anything to bind")
    return p


def claims(ctx, w):
    """User claims with the names of protocol claims, all asked for."""
    sid, facts = prepare(ctx, w)
    w.authorized(sid)
    now = sym_now(ctx)
    g = w.sm[sid]
    g.expires_at = 0
    bad = ctx.pick("clash", CLASH + ["none"])
    rec = dict(w.ctx.userinfo.db["diana"])
    if bad != "none":
        rec[bad] = ctx.str("claim", 8, minlen=1)
    w.ctx.userinfo.db["diana"] = rec
    g.authorization_request["claims"] = {"id_token": {bad: None, "nickname": None}}
    kw, code, token = {}, None, None
    if ctx.flag("with_code"):
        code = kw["code"] = "the_code_delivered"
    if ctx.flag("with_token"):
        token = kw["access_token"] = "the_token_delivered"
    if ctx.flag("as_userinfo"):
        kw["as_if"] = "userinfo"
    w.ctx.cdb[facts["client"]]["backchannel_logout_session_required"] = ctx.flag("wants_sid")
    r = ctx.call(w.mint, sid, "id_token", **kw)
    ctx.check(r.ok, "no ID token")
    ctx.cover("clash" if bad != "none" else "plain")
    p = judge(ctx, r.value.value, facts, now, code, token, bound=True)
    ctx.check(p["sid"] == sid if "sid" in p else bad != "sid", "the session ID is not the session's")


def answers(ctx, w):
    """ID tokens in authorization answers, beside the code and access token they bind."""
    rt = ctx.pick("response_type", ["id_token", "code id_token", "id_token token", "code id_token token"])
    sid, facts = prepare(ctx, w, rt, scope=["openid", "email"])
    w.ctx.cdb[facts["client"]]["client_id"] = facts["client"]
    now = NOW
    ctx.set_time(now)
    w.authorized(sid)
    g = w.sm[sid]
    ep = w.ep("authorization")
    r = ctx.call(ep.create_authn_response, g.authorization_request, sid)
    ctx.check(r.ok, "no answer")
    ra = r.value["response_args"]
    ctx.check("id_token" in ra, "no ID token in the answer")
    ctx.cover(rt)
    judge(ctx, ra["id_token"], facts, now, ra.get("code"), ra.get("access_token"), bound=True)


def hashes(ctx, w):
    """The companions' hashes under every signing algorithm."""
    ctx.set_time(NOW)
    alg = ctx.pick("alg", HASHED)
    w.ctx.cdb["client_1"]["id_token_signed_response_alg"] = alg
    sid = w.session("client_1", response_type="code", nonce="nonce_value_123")
    w.authorized(sid)
    kw = {}
    for name in ("code", "access_token"):
        if ctx.flag("with_" + name):
            kw[name] = "the_%s_delivered" % name
    r = ctx.call(w.mint, sid, "id_token", **kw)
    ctx.check(r.ok, "no ID token")
    p, h = decode(ctx, r.value.value)
    ctx.check(h["alg"] == alg, "not signed the way the client registered")
    ctx.cover(alg)
    for name, comp in (("c_hash", "code"), ("at_hash", "access_token")):
        if comp in kw:
            ctx.check(p[name] == left_hash(kw[comp].encode("utf-8"), "HS" + alg[-3:]), name + " does not bind what is delivered with it")
        else:
            ctx.check(name not in p, name + " without anything to bind")


def more_keys():
    w = oidc_world()
    w.ctx.keyjar.import_jwks(jwks("ec_more_jwks.json"), "")
    w.ctx.keyjar.import_jwks(jwks("ec_more_jwks.json"), ISS)
    return w


def later(ctx, w):
    """ID tokens from the token endpoint, after redeeming and after refreshing."""
    sid, facts = prepare(ctx, w, scope=["openid", "offline_access"])
    facts_lifetime = facts["lifetime"]
    now = NOW
    ctx.set_time(now)
    g = w.authorized(sid)
    g.expires_at = 0
    g.usage_rules = {k: {a: b for a, b in v.items() if a != "expires_in"} for k, v in g.usage_rules.items()}
    code = w.mint(sid, "authorization_code")
    w.sm[sid] = g
    cl = facts["client"]
    if ctx.flag("refresh"):
        rt = w.mint(sid, "refresh_token", based_on=code)
        req = {"grant_type": "refresh_token", "refresh_token": rt.value}
        ctx.cover("refreshed")
    else:
        req = {"grant_type": "authorization_code", "code": code.value, "redirect_uri": "https://rp%s.example.com/cb" % cl[-1]}
        ctx.cover("redeemed")
    req.update(client_id=cl, client_secret="hemligt_for_" + cl)
    later_ = ctx.int("later", 1, BIG)
    ctx.assume(later_ >= now)
    # the tokens presented are still good then
    for t in g.issued_token:
        t.expires_at = 0
    ctx.assume(later_ <= now + 500)
    ctx.set_time(later_)
    r = redeem(ctx, w, req)
    ctx.check(r.ok and "response_args" in r.value and "id_token" in r.value["response_args"], "no ID token in the answer")
    ra = r.value["response_args"]
    judge(ctx, ra["id_token"], facts, later_, ra.get("code"), ra.get("access_token"))


HARNESSES = [
    Harness("claims", claims, oidc_world, covers=["clash", "plain"], thorough={"few": False},
            bounds="any subject, nonce, authentication class <= 12 chars, any times and lifetime; one clashing user claim of 16; three signing algorithms (five when thorough)"),
    Harness("answers", answers, oidc_world, covers=["id_token", "code id_token", "id_token token", "code id_token token"], thorough={"few": False},
            bounds="as claims, at one point in time, all four response types with an ID token"),
    Harness("hashes", hashes, more_keys, covers=HASHED,
            bounds="eight signing algorithms, with and without code and access token"),
    Harness("later", later, oidc_world, covers=["refreshed", "redeemed"], thorough={"few": False}, bounds="as claims; up to 500 s after the grant"),
]
