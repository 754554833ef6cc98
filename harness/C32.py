"""C32: tokens of one kind are never accepted as another kind."""
import json

from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jws.jws import JWS

from engine.harness_api import Harness
from harness import C04
from harness.C01 import CB
from harness.C01 import redeem
from harness.C01 import request
from harness.C20 import ask
from harness.C26 import sign
from harness.common import all_tokens
from harness.common import handed_out
from harness.common import sym_item
from harness.world import ISS
from harness.world import NOW
from harness.world import World

PLACES = {"code": ["authorization_code"], "refresh": ["refresh_token"], "userinfo": ["access_token"]}
SCOPE = ["openid", "offline_access", "email"]
RULES = {"authorization_code": {"supports_minting": ["access_token", "refresh_token", "id_token"], "max_usage": 1},
         "access_token": {}, "refresh_token": {"supports_minting": ["access_token", "refresh_token", "id_token"]}}


def _world(oauth2, jwt):
    w = World(oauth2=oauth2, jwt_tokens=jwt)
    w.kinds = ["authorization_code", "access_token", "refresh_token"] + ([] if oauth2 else ["id_token"])
    return w


def oidc_jwt():
    return _world(False, True)


def oidc_opaque():
    return _world(False, False)


def oauth2_jwt():
    return _world(True, True)


def oauth2_opaque():
    return _world(True, False)


def place_of(ctx, w, place, value, client):
    """Present a value; what is handed out, or None."""
    if place == "code":
        r = redeem(ctx, w, request(value, client, CB))
    elif place == "refresh":
        r = C04.present(ctx, w, C04.rreq(value, client))
    elif place == "userinfo":
        r, ra = ask(ctx, w, value, ctx.pick("how", ["header", "body"]))
        return ra
    return handed_out(r.value) if r.ok else None


def confusion(ctx, w):
    """Any token, in any state, presented anywhere by either client."""
    sid = w.session("client_1", scope=SCOPE)
    grant = w.authorized(sid)
    other = w.session("client_2", user="babs", scope=SCOPE)
    w.authorized(other)
    kind = ctx.pick("kind", w.kinds)
    code = w.mint(sid, "authorization_code")
    if kind == "authorization_code":
        tok = code
    elif ctx.flag("implicit"):
        tok = w.mint(sid, kind)
    else:
        tok = w.mint(sid, kind, based_on=code)
    rules = ctx.pick("rules", ["usual", "permissive", "none"])
    if rules == "permissive":
        # whatever can be minted with a token, it remains what it is
        tok.usage_rules = {"supports_minting": ["access_token", "refresh_token", "id_token", "authorization_code"]}
    elif rules == "none":
        tok.usage_rules = {}
    ctx.set_time(NOW)  # the other instants are relative to it
    sym_item(ctx, "token", tok)
    sym_item(ctx, "grant", grant, used=False)
    place = ctx.pick("place", ["code", "refresh"] + ([] if w.oauth2 else ["userinfo"]))
    client = ctx.pick("client", ["client_1", "client_2"]) if place != "userinfo" else "client_1"
    n0 = len(all_tokens(w.sm))
    state = (tok.used, tok.revoked)
    out = place_of(ctx, w, place, tok.value, client)
    new = len(all_tokens(w.sm)) - n0
    if kind in PLACES[place]:
        if out:
            ctx.cover("right " + place)
    else:
        ctx.check(not out, "a token of one kind is accepted as another kind")
        ctx.check(new == 0, "a token of one kind creates tokens as another kind")
        if not (place == "code" and kind == "authorization_code"):
            ctx.check(ctx.eq(tok.used, state[0]), "a token of one kind is used up as another kind")
        ctx.cover("wrong " + place)


def foreign(ctx, w):
    """Where a token of another provider, client or of none is expected: JSON web tokens that merely look right."""
    sid = w.session("client_1", scope=SCOPE)
    w.authorized(sid)
    at = w.mint(sid, "access_token")
    place = ctx.pick("place", ["code", "refresh"] + ([] if w.oauth2 else ["userinfo"]))
    kind = ctx.pick("ttype", ["T", "R", "A", ""])
    claims = {"iss": ctx.pick("iss", [ISS, "client_1"]), "sid": sid, "ttype": kind, "jti": ctx.str("jti", 8), "exp": NOW + 600, "iat": NOW,
              "aud": ["https://rs.example.com"], "sub": w.sm[sid].sub, "client_id": "client_1", "scope": SCOPE}
    how = ctx.pick("signed", ["client", "secret", "none"])
    if how == "client":
        v = sign(claims, "client1_jwks.json", "RS256", "RSA")
    elif how == "secret":
        v = JWS(json.dumps(claims), alg="HS256").sign_compact(keys=[SYMKey(key="hemligt_for_client_1")])
    else:
        v = JWS(json.dumps(claims), alg="none").sign_compact()
    n0 = len(all_tokens(w.sm))
    ctx.set_time(NOW)
    out = place_of(ctx, w, place, v, "client_1")
    ctx.check(not out, "a token that the provider did not issue is accepted")
    ctx.check(len(all_tokens(w.sm)) == n0, "a token that the provider did not issue creates tokens")
    ctx.cover("refused")


_W = ["wrong code", "wrong refresh", "right code", "right refresh"]
_U = ["wrong userinfo", "right userinfo"]
HARNESSES = [
    Harness("oidc_jwt", confusion, oidc_jwt, covers=_W + _U, bounds="every kind at every place, any life-cycle state of token and grant, either client, three sets of usage rules"),
    Harness("oidc_opaque", confusion, oidc_opaque, covers=_W + _U, bounds="the same with opaque tokens"),
    Harness("oauth2_jwt", confusion, oauth2_jwt, covers=_W, bounds="the same at the OAuth 2.0 endpoints"),
    Harness("oauth2_opaque", confusion, oauth2_opaque, covers=_W, bounds="the same at the OAuth 2.0 endpoints with opaque tokens"),
    Harness("foreign", foreign, oidc_jwt, covers=["refused"], bounds="JWTs with the claims of a token signed with other keys, arbitrary identifier"),
]
