"""C42: what an endpoint answers arrives whole, as what it is, and is not kept by anybody on the way."""
import json

from engine.harness_api import Harness
from harness.C24 import Client
from harness.world import NOW
from harness.world import World

SECRET = {"client_1": "hemligt_for_client_1", "client_2": "hemligt_for_client_2"}
EXTRA = {"authorization": {"x_authorization": "issuer"}, "accesstoken": {"x_accesstoken": "issuer"}, "token_exchange": {"x_exchange": "issuer"},
         "token_introspection": {"x_introspection": "issuer"}, "userinfo": {"x_userinfo": "issuer"}}
MINE = {"introspection": "x_introspection", "token": "x_accesstoken", "userinfo": "x_userinfo", "registration": None, "pushed_authorization": None}


def _world(oauth2):
    def tweak(conf):
        conf["endpoint"]["pushed_authorization"] = {"path": "par", "class": "oidcop.oauth2.pushed_authorization.PushedAuthorization",
                                                    "kwargs": {"client_authn_method": ["client_secret_post"]}}

    return World(oauth2=oauth2, tweak=tweak)


def oidc():
    return _world(False)


def oauth2():
    return _world(True)


def plain(v):
    if hasattr(v, "to_dict"):
        return v.to_dict()
    return v


def same(ctx, a, b):
    """JSON says the same as the answer: words in lists or separated by blanks."""
    if isinstance(a, dict) and isinstance(b, dict):
        return ctx.all(set(a) == set(b), *[same(ctx, a[k], b[k]) for k in a if k in b])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return ctx.all(len(a) == len(b), *[same(ctx, x, y) for x, y in zip(a, b)])
    if isinstance(a, (list, tuple)):
        return ctx.eq(" ".join(a), b)
    if isinstance(b, (list, tuple)):
        return ctx.eq(a, " ".join(b))
    return ctx.eq(a, b)


def headers(ctx, d):
    """One content type, and nobody keeps it."""
    got = {}
    for k, v in d["http_headers"]:
        ctx.check(k.lower() not in got or got[k.lower()] == v, "a header is there twice with different values")
        got[k.lower()] = v
    ctx.check(got.get("cache-control") == "no-store" and got.get("pragma") == "no-cache", "the answer may be cached")
    ctx.check(len(d["http_headers"]) == len(got), "a header is there twice")
    return got.get("content-type", "")


def ask(ctx, w, name, req, http_info=None, more=None):
    """-> (the answer as it was decided, what is sent)"""
    ep = w.ep(name)
    r = ctx.call(ep.parse_request, req, **({"http_info": http_info} if http_info else {}))
    ctx.check(r.ok, "the request is not answered")
    if "error" in r.value:
        return plain(r.value), None, r.value
    p = ctx.call(ep.process_request, r.value, **(more or {}))
    ctx.check(p.ok, "the request is not answered")
    if "error" in p.value:
        return plain(p.value), None, p.value
    args = p.value.get("response_args") or p.value.get("http_response")
    decided = {k: v for k, v in plain(args).items()}
    if "http_response" in p.value:
        return decided, None, p.value["http_response"]
    d = ctx.call(ep.do_response, request=r.value, **p.value)
    ctx.check(d.ok, "the answer cannot be delivered")
    return decided, d.value, None


def errors(ctx, w, name, decided):
    """A refusal, the way applications deliver it."""
    ctx.cover("refused")
    d = ctx.call(w.ep(name).do_response, **decided)
    ctx.check(d.ok, "a refusal cannot be delivered")
    b = ctx.call(json.loads, d.value["response"])
    ctx.check(b.ok and isinstance(b.value, dict), "a refusal is not JSON")
    ctx.check(set(b.value) <= {"error", "error_description", "error_uri", "state"}, "a refusal says more than what is wrong")
    ctx.check(b.value.get("error") == decided["error"], "the error is another one")
    if decided.get("error_description"):
        ctx.check(ctx.eq(b.value.get("error_description"), decided["error_description"]), "the description is lost")
    ctx.check(headers(ctx, d.value).startswith("application/json"), "a refusal is not called JSON")


def answers(ctx, w):
    """Every endpoint in turn, right and wrong requests, symbolic contents."""
    ctx.set_time(NOW)
    w.ctx.httpc = Client(ctx, None)
    name = ctx.pick("endpoint", ["token", "introspection", "pushed_authorization"] + ([] if w.oauth2 else ["userinfo", "registration"]))
    if ctx.flag("extra_args"):
        w.ctx.add_on["extra_args"] = {k: dict(v) for k, v in EXTRA.items()}
        from oidcop.oauth2.add_on.extra_args import pre_construct

        for n in w.server.endpoint:
            w.ep(n).pre_construct.append(pre_construct)
    words = [ctx.str("word%d" % i, 12, 1) for i in range(ctx.params["n"])]
    for x in words:
        ctx.assume(ctx.neg(ctx.isin(" ", x)))
    right = ctx.flag("right")
    auth = {"client_id": "client_1", "client_secret": SECRET["client_1"]}
    sid = w.session("client_1", "diana", scope=["openid", "offline_access", "email"] + words)
    g = w.authorized(sid)
    expected_jwt = False
    if name == "token":
        code = w.mint(sid, "authorization_code")
        if ctx.flag("refresh"):
            # "refresh" is the second answer, after another one
            ref = w.mint(sid, "refresh_token", code)
            req = dict(auth, grant_type="refresh_token", refresh_token=ref.value if right else ref.value[:-4] + "AAAA")
        else:
            req = dict(auth, grant_type="authorization_code" if right or ctx.flag("known_type") else "password", code=code.value if right else code.value[:-4] + "AAAA", redirect_uri="https://rp1.example.com/cb")
        if ctx.flag("with_state"):
            req["state"] = "STATE"
        decided, sent, err = ask(ctx, w, name, req, more={"issue_refresh": True})
    elif name == "introspection":
        tok = w.mint(sid, "access_token", None)
        g.sub = ctx.str("sub", 12, 1)
        which = ctx.pick("about", ["live", "dead", "garbage"])
        if which == "dead":
            tok.revoked = True
        value = tok.value if which != "garbage" else ctx.pick("value", SHAPES).replace("OWN", tok.value).replace("WN", tok.value[1:])
        decided, sent, err = ask(ctx, w, name, dict(auth, token=value), more={"release": ["username"]} if ctx.flag("release") else {})
    elif name == "userinfo":
        tok = w.mint(sid, "access_token", None)
        w.ctx.userinfo.db["diana"] = {"email": ctx.str("email", 20, 1), "name": "Diana"}
        g.claims["userinfo"] = {"email": None, "name": None}
        how = ctx.pick("how", ["plain", "signed"])
        if how == "signed":
            w.ctx.cdb["client_1"]["userinfo_signed_response_alg"] = "ES256"
            expected_jwt = True
        decided, sent, err = ask(ctx, w, name, {}, http_info={"headers": {"authorization": "Bearer " + (tok.value if right else "WRONG" + tok.value)}})
    elif name == "registration":
        md = {"redirect_uris": ["https://a.example.com/cb"], "client_name": words[0] if words else "A", "application_type": "web" if right else "native",
              "response_types": ["code"], "contacts": ["ops@a.example.com"]}
        decided, sent, err = ask(ctx, w, name, md)
    else:
        decided, sent, err = ask(ctx, w, name, dict(auth, response_type="code", scope="openid", redirect_uri="https://rp1.example.com/cb" if right else "https://elsewhere.example.com/cb",
                                                  nonce="NONCE", state="STATE"))
        if err is not None and "error" not in err:
            ctx.check(right, "a bad request is stored")
            ctx.cover("stored")
            ctx.check(set(decided) == {"request_uri", "expires_in"}, "more than the reference is told")
            return
    if err is not None:
        ctx.check(not right or name == "introspection", "a good request is refused")
        errors(ctx, w, name, decided)
        return
    ctx.cover("answered")
    typ = headers(ctx, sent)
    body = sent["response"]
    if expected_jwt:
        ctx.check(typ == "application/jwt", "a JWT is called something else")
        ctx.check(body.count(".") == 2, "what is called a JWT is none")
        return
    ctx.check(typ.startswith("application/json"), "JSON is called something else")
    b = ctx.call(json.loads, body) if not isinstance(body, dict) else None
    ctx.check(b is None or b.ok, "what is called JSON is none")
    got = b.value
    extra = {k for v in EXTRA.values() for k in v}
    added = {k for k in got if k in extra}
    ctx.check(not added or (bool(w.ctx.add_on.get("extra_args")) and added == {MINE[name]}), "an answer has the additions meant for another endpoint")
    rest = {k: v for k, v in got.items() if k not in extra}
    was = {k: v for k, v in decided.items() if k not in extra}
    ctx.check(set(rest) == set(was), "what arrives is not what was answered")
    ctx.check(same(ctx, rest, was), "what arrives says something else than what was answered")
    if name == "token":
        ctx.check({"access_token", "token_type"} <= set(rest), "a token answer without its essentials")
        ctx.check(bool(sent.get("cookie")), "the session cookie is lost")
    if name == "introspection":
        ctx.check(isinstance(got["active"], bool), "whether the token is active is not said")
        ctx.check(got["active"] == (which == "live"), "what is said of the token is wrong")
    # the next answer is complete as well, and has nothing of this one
    nxt = ask(ctx, w, "introspection", {"client_id": "client_2", "client_secret": SECRET["client_2"], "token": "NOBODYS"})
    ctx.check(nxt[1] is not None, "the next request is not answered")
    n = ctx.call(json.loads, nxt[1]["response"])
    ctx.check(n.ok and set(n.value) - extra == {"active"} and n.value["active"] is False, "an answer has something of the one before")
    ctx.check(headers(ctx, nxt[1]).startswith("application/json"), "the next answer is called something else")


def grants(ctx, w):
    """Codes and refresh tokens that are no good, for any reason: an error says so."""
    if ctx.flag("jwt_codes"):
        w.sm.token_handler.handler["authorization_code"] = w.jwt_codes
    what = ctx.pick("what", ["authorization_code", "refresh_token"])
    why = ctx.pick("why", ["time", "garbage", "any", "deleted", "revoked", "another client's", "another kind", "used", "nothing"] + ([] if w.oauth2 else ["ID token"]))
    ctx.set_time(NOW)
    sid = w.session("client_2" if why == "another client's" else "client_1", "diana", scope=["openid", "offline_access"])
    g = w.authorized(sid)
    code = w.mint(sid, "authorization_code")
    ref = w.mint(sid, "refresh_token", code)
    tok = code if what == "authorization_code" else ref
    tok.expires_at = NOW + (300 if tok is code else 86400)
    value = tok.value
    if why == "garbage":
        value = value[:-6] + "AAAAAA"
    elif why == "any":
        value = ctx.pick("value", SHAPES).replace("OWN", value).replace("WN", value[1:])
    elif why == "deleted":
        w.sm.delete(list(w.sm.decrypt_session_id(sid)))
    elif why == "revoked":
        tok.revoked = True
    elif why == "another kind":
        value = (ref if what == "authorization_code" else w.mint(sid, "access_token", None)).value
    elif why == "ID token":
        value = w.mint(sid, "id_token").value
    elif why == "used":
        tok.used, tok.usage_rules = 1, dict(tok.usage_rules, max_usage=1)
    now = NOW
    if why == "time":
        now = ctx.int("now", NOW, NOW + (1 << 30))
        ctx.set_time(now)
    req = {"client_id": "client_1", "client_secret": SECRET["client_1"], "grant_type": what, "redirect_uri": "https://rp1.example.com/cb"}
    if why != "nothing":
        req["code" if what == "authorization_code" else "refresh_token"] = value
    ep = w.ep("token")
    r = ctx.call(ep.parse_request, req)
    if not r.ok and why == "nothing":
        return
    ctx.check(r.ok, "a request with a token that is no good is not answered")
    out = r.value
    if "error" not in out:
        p = ctx.call(ep.process_request, out)
        ctx.check(p.ok, "a request with a token that is no good is not answered")
        out = p.value
    if "error" in out:
        ctx.cover("no good: " + ("time" if why == "time" else "other"))
        ctx.check(out["error"] in ("invalid_grant", "invalid_request"), "a token that is no good is called something else")
        errors(ctx, w, "token", plain(out))
    else:
        ctx.cover("good")
        ctx.check(why == "time" and ctx.all(now <= tok.expires_at, now <= g.expires_at), "a token that is no good is good enough")


def timed(make):
    def setup():
        from oidcop.token.jwt_token import JWTToken

        w = make()
        w.jwt_codes = JWTToken("authorization_code", server_get=w.server.server_get, lifetime=600)
        return w

    return setup


SHAPES = ["x", "a.b.c", "AAAA", "e30.e30.", "\u00e5\u00e4\u00f6", " ", "=", "eyJhbGciOiJFUzI1NiJ9..", "eyJhbGciOiJub25lIn0.e30.", "eyJhbGciOiJFUzI1NiJ9.e30.AAAA",
          "eyJhbGciOiJFUzI1NiJ9.eyJhIjoxfQ.AAAA", "eyJhbGciOiJkaXIiLCJlbmMiOiJBMTI4R0NNIn0..AAAA.AAAA.AAAA", "OWN ", "WN", "OWN.OWN"]


HARNESSES = [
    Harness("oidc", answers, oidc, covers=["answered", "refused", "stored"], quick={"n": 1}, thorough={"n": 2},
            bounds="five endpoints, right and wrong requests, any scope words, subjects, claim values, names; with and without the extra_args add-on; followed by another answer"),
    Harness("oauth2", answers, oauth2, covers=["answered", "refused", "stored"], quick={"n": 1}, thorough={"n": 2},
            bounds="the same for OAuth2"),
    Harness("oidc_grants", grants, timed(oidc), covers=["no good: time", "no good: other", "good"],
            bounds="codes and refresh tokens, opaque and JWT: any string, any time, deleted, revoked, used, another kind, another client's, missing"),
    Harness("oauth2_grants", grants, timed(oauth2), covers=["no good: time", "no good: other", "good"], bounds="the same for OAuth2"),
]
