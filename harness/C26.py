"""C26: end-session requests act only on verified identity and registered URIs."""
import json
from urllib.parse import parse_qs
from urllib.parse import urlsplit

from cryptojwt.jwk.jwk import key_from_jwk_dict
from cryptojwt.jws.jws import JWS
from cryptojwt.jws.jws import factory

from engine.harness_api import Harness
from harness.C13 import registered
from harness.world import ISS
from harness.world import NOW
from harness.world import World
from harness.world import jwks

POST = {
    "client_1": [("https://rp1.example.com/bye", None), ("https://rp1.example.com/q", {"a": ["b"]})],
    "client_2": [("https://rp2.example.com/bye", None)],
}
HINTS = ["none", "own", "other_client", "other_user", "by_client", "by_client_as_op", "several", "several_first", "unsigned", "mac_secret", "second_grant"]


def world():
    w = World()
    for c, u in POST.items():
        w.ctx.cdb[c]["post_logout_redirect_uris"] = u
    return w


def sign(claims, jwks_name, alg, typ):
    key = next(key_from_jwk_dict(k) for k in jwks(jwks_name)["keys"] if k["kty"] == typ and k.get("use", "sig") == "sig")
    return JWS(json.dumps(claims), alg=alg).sign_compact(keys=[key])


def hint_of(ctx, w, which, made):
    idt = {k: v[1].value for k, v in made.items()}
    if which in ("own", "other_client", "other_user", "second_grant"):
        return idt[which]
    claims = dict(factory(idt["own"]).jwt.payload())
    if which == "by_client":
        claims["iss"] = "client_1"
        return sign(claims, "client1_jwks.json", "RS256", "RSA")
    if which == "by_client_as_op":
        return sign(claims, "client1_jwks.json", "RS256", "RSA")
    if which in ("several", "several_first"):
        # for more than one client, asked for by the first
        claims.update({"aud": ["client_2", "client_1"] if which == "several" else ["client_1", "client_2"], "azp": "client_1"})
        return sign(claims, "op_jwks.json", "RS256", "RSA")
    if which == "unsigned":
        return JWS(json.dumps(claims), alg="none").sign_compact()
    from cryptojwt.jwk.hmac import SYMKey

    claims["iss"] = ctx.pick("mac_iss", ["client_1", ISS])
    return JWS(json.dumps(claims), alg="HS256").sign_compact(keys=[SYMKey(key=w.ctx.cdb["client_1"]["client_secret"])])


def sessions(ctx, w):
    made = {}
    for name, user, client in (("own", "diana", "client_1"), ("other_client", "diana", "client_2"),
                               ("other_user", "babs", "client_1"), ("second_grant", "diana", "client_1")):
        sid = w.session(client, user=user, scope=["openid"])
        w.authorized(sid)
        code = w.mint(sid, "authorization_code")
        made[name] = (sid, w.mint(sid, "id_token", based_on=code), client)
    return made


def end(ctx, w):
    ctx.set_time(NOW)
    made = sessions(ctx, w)
    which = ctx.pick("cookie", ["own", "other_client", "own_refused", "none", "foreign", "unknown"])
    hint = ctx.pick("hint", HINTS)
    cid = ctx.pick("client_id", [None, "client_1", "client_2"])
    uri = ctx.pick("uri", [None, "https://rp1.example.com/bye", "https://rp1.example.com/q?a=b", "https://rp2.example.com/bye", "near"])
    if uri == "near":
        uri = "https://rp1.example.com/bye" + ctx.chars("x", ctx.params["n"], 1, alphabet="/?#&a%. ")
    state = ctx.str("state", 20, 1) if ctx.flag("has_state") else None
    req = {}
    if hint != "none":
        req["id_token_hint"] = hint_of(ctx, w, hint, made)
    if cid:
        req["client_id"] = cid
    if uri is not None:
        req["post_logout_redirect_uri"] = uri
    if state is not None:
        req["state"] = state
    cname = w.ctx.cookie_handler.name["session"]
    key = which if which in made else "own"
    sid, _, client = made[key]
    cookie = w.ctx.new_cookie(name=cname, sid=sid, state="S")
    if which == "none":
        cookies = []
    elif which == "foreign":
        cookies = [dict(cookie, value=World().ctx.cookie_handler.make_cookie_content(cname, "x")["value"][:-4] + "AAA=")]
    elif which == "unknown":
        cookies = [w.ctx.new_cookie(name=cname, sid=w.sm.encrypted_session_id("diana", "client_1", "nogrant"), state="S")]
    elif which == "own_refused":
        cookies = [dict(cookie, name="other")]
    else:
        cookies = [cookie]
    ep = w.ep("session")
    http = {"cookie": cookies, "headers": {}}
    p = ctx.call(ep.parse_request, req, http_info=http)
    r = None
    if p.ok and "error" not in p.value:
        r = ctx.call(ep.process_request, p.value, http_info=http)
    ok = r is not None and r.ok and "redirect_location" in r.value
    for k, (s, _, _) in made.items():
        ctx.check(not w.sm.client_session_is_revoked(s), "a session is ended although the user was not asked")
    good_hint = hint == "none" or hint == key or (hint == "second_grant" and key == "own") \
        or (hint in ("several", "several_first") and w.sm[sid].sub == w.sm[made["own"][0]].sub)
    good_uri = uri is None or (hint != "none" and registered(ctx, uri, POST[client]))
    good = ctx.all(which in made, good_hint, cid in (None, client), good_uri)
    ctx.note(ok)
    if not ok:
        ctx.cover("refused")
        ctx.check(ctx.neg(good), "a proper logout request is refused")
        return
    ctx.cover("accepted")
    ctx.check(good, "a logout request is accepted without a proper hint, cookie, client or URI")
    loc = r.value["redirect_location"]
    ctx.check(loc.startswith(ISS + "/verify_logout?"), "the user is sent to a wrong place")
    info = ep.unpack_signed_jwt(parse_qs(urlsplit(loc).query)["sjwt"][0])
    ctx.check(w.sm.decrypt_session_id(info["sid"]) == w.sm.decrypt_session_id(sid), "another session would be ended")
    to = info["redirect_uri"]
    if uri is None:
        ctx.check(to == ISS + "/post_logout", "without a URI the user is sent to a wrong place")
    elif state is None:
        ctx.check(ctx.eq(to, uri), "the user is sent to a wrong place")
    else:
        ctx.cover("state")
        pre = uri + ("&" if "?" in uri else "?") + "state="
        ctx.check(to.startswith(pre), "the user is sent to a wrong place")
        ctx.check(ctx.eq(parse_qs(to[len(pre) - 6:], keep_blank_values=True)["state"][0], state), "the state is not returned unchanged")


def act(ctx, w):
    """What the user consents to on the verification page: only statements this provider signed are acted upon."""
    ctx.set_time(NOW)
    made = sessions(ctx, w)
    ep = w.ep("session")
    payload = {"iss": ISS, "aud": [ISS], "sid": made["own"][0], "redirect_uri": "https://x.example.com"}
    by = ctx.pick("signed_by", ["client_rs", "client_es", "unsigned", "client_secret", "garbage"])
    if by == "client_rs":
        t = sign(payload, "client1_jwks.json", "RS256", "RSA")
    elif by == "client_es":
        t = sign(payload, "client1_jwks.json", "ES256", "EC")
    elif by == "unsigned":
        t = JWS(json.dumps(payload), alg="none").sign_compact()
    elif by == "client_secret":
        from cryptojwt.jwk.hmac import SYMKey

        t = JWS(json.dumps(payload), alg="HS256").sign_compact(keys=[SYMKey(key=w.ctx.cdb["client_1"]["client_secret"])])
    else:
        t = "abc"
    r = ctx.call(ep.unpack_signed_jwt, t)
    ctx.check(not r.ok, "a logout statement not signed by this provider is accepted")
    ctx.cover(by)


HARNESSES = [
    Harness("end", end, world, covers=["accepted", "refused", "state"], quick={"n": 1}, thorough={"n": 2},
            bounds="six cookies, nine ID token hints, three client identifiers, URIs registered for either client or n characters off, any non-empty state string"),
    Harness("act", act, world, covers=["client_rs", "client_es", "unsigned", "client_secret", "garbage"], bounds="five forgeries"),
]
