"""C35: proof of possession at the token endpoint."""
import json

from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jwk.jwk import key_from_jwk_dict
from cryptojwt.jws.jws import JWS
from cryptojwt.jws.jws import factory

from engine.harness_api import Harness
from harness.world import ISS
from harness.world import NOW
from harness.world import World
from harness.world import jwks

ALGS = ["ES256", "RS256"]
URL = ISS + "/token"


def world(oauth2):
    def setup():
        def tweak(conf):
            conf["add_on"] = {"dpop": {"function": "oidcop.oauth2.add_on.dpop.add_support",
                                       "kwargs": {"dpop_signing_alg_values_supported": list(ALGS)}}}

        w = World(oauth2=oauth2, tweak=tweak)
        w.keys = {}
        for name, src, kty in (("A", "client1", "EC"), ("B", "client2", "EC"), ("R", "client1", "RSA"), ("S", "client2", "RSA")):
            w.keys[name] = next(key_from_jwk_dict(k) for k in jwks(src + "_jwks.json")["keys"] if k["kty"] == kty)
        w.keys["M"] = SYMKey(key="a_shared_secret_of_sufficient_length_0123")
        w.pub = {n: {k: v for k, v in key.serialize(private=n == "M").items() if k not in ("kid", "use")} for n, key in w.keys.items()}
        for k in w.keys.values():
            k.kid = ""
        return w

    return setup


def thumb(w, name):
    v = key_from_jwk_dict(w.pub[name]).thumbprint("SHA-256")
    return v.decode() if isinstance(v, bytes) else v


def proof(w, signer, alg, headers, claims):
    key = [w.keys[signer]] if alg != "none" else None
    return JWS(json.dumps(claims), alg=alg).sign_compact(keys=key, **headers)


def grant_request(ctx, w, client="client_1", refresh=False):
    sid = w.session(client, scope=["openid", "offline_access"])
    w.authorized(sid)
    code = w.mint(sid, "authorization_code")
    if refresh:
        req = {"grant_type": "refresh_token", "refresh_token": w.mint(sid, "refresh_token", based_on=code).value}
    else:
        req = {"grant_type": "authorization_code", "code": code.value, "redirect_uri": "https://rp%s.example.com/cb" % client[-1]}
    req.update(client_id=client, client_secret="hemligt_for_" + client)
    return sid, req


def ask(ctx, w, req, header, method="POST", url=URL, with_http=True):
    """-> the token response, or None if refused"""
    ep = w.ep("token")
    info = {"headers": {"dpop": header} if header is not None else {}, "method": method, "url": url}
    r = ctx.call(ep.parse_request, req, http_info=info)
    if not r.ok or "error" in r.value:
        return None
    r = ctx.call(ep.process_request, r.value, issue_refresh=True)
    if not r.ok or "error" in r.value:
        return None
    return r.value["response_args"]


def bound_to(ctx, w, a, name):
    ctx.check(a["token_type"] == "DPoP", "the access token is not of the sender-constrained type")
    p = factory(a["access_token"]).jwt.payload()
    ctx.check("cnf" in p and p["cnf"] == {"jkt": thumb(w, name)}, "the access token does not carry the thumbprint of the proved key")


SIGNED = {"A": ["ES256"], "B": ["ES256"], "R": ["RS256", "PS256", "RS512"], "M": ["HS256"], "S": ["RS256"]}


def proofs(ctx, w):
    """Every mismatch of a proof with its request and its key."""
    ctx.set_time(NOW)
    refresh = ctx.flag("refresh")
    inside = ctx.pick("inside", ["A", "B", "R", "M", "none"])
    signer = ctx.pick("signer", ["A", "R", "M", "S"])
    alg = ctx.pick("alg", SIGNED[signer])
    unsigned = ctx.flag("unsigned") if signer == "A" else False
    headers, claims = {}, {"jti": "an_identifier", "iat": NOW}
    if inside != "none":
        headers["jwk"] = w.pub[inside]
    where = ctx.pick("where", ["body", "header", "both"]) if inside == signer else "body"
    htm, htu = ctx.str("htm", 6, minlen=1), ctx.str("htu", 40, minlen=1)
    named = {"htm": htm, "htu": htu}
    if where != "header":
        claims.update(named)
    if where != "body":
        headers.update({"htm": "POST", "htu": URL})
    other = ctx.pick("key_in_body", [None, "A", "B"])
    if other:
        claims["jwk"] = w.pub[other]
    typ = ctx.pick("typ", ["right", "wrong", "absent"]) if inside == signer else "right"
    headers["typ"] = "dpop+jwt" if typ == "right" else ctx.str("typ.text", 12, minlen=1) if typ == "wrong" else None
    if typ == "absent":
        del headers["typ"]
    lost = ctx.pick("lost", [None, "htm", "htu"]) if where == "body" and inside == signer else None
    if lost:
        claims.pop(lost)
    sid, req = grant_request(ctx, w, refresh=refresh)
    h = proof(w, signer, "none" if unsigned else alg, headers, claims)
    a = ask(ctx, w, req, h)
    good = ctx.all(not unsigned, inside == signer, alg in ALGS, where != "header", lost is None, htm == "POST", htu == URL,
                   headers.get("typ", "") == "dpop+jwt")
    if a is None:
        ctx.cover("refused")
        ctx.check(ctx.neg(good), "a good proof is refused")
        return
    ctx.cover("accepted")
    ctx.check(inside == signer and not unsigned, "a proof that is not signed by the key inside it is accepted")
    ctx.check(alg in ALGS, "a proof made with an algorithm the provider does not support is accepted")
    ctx.check(headers.get("typ", "") == "dpop+jwt", "something else than a proof is accepted")
    ctx.check(ctx.all(where != "header", lost is None, htm == "POST", htu == URL), "a proof for another request is accepted")
    bound_to(ctx, w, a, inside)


def requests(ctx, w):
    """Any method and URI of the request, any in the proof."""
    ctx.set_time(NOW)
    n = ctx.params.get("n", 12)
    htm, htu, method, url = (ctx.str(x, n, minlen=1) for x in ("htm", "htu", "method", "url"))
    sid, req = grant_request(ctx, w, refresh=ctx.flag("refresh"))
    h = proof(w, "A", "ES256", {"typ": "dpop+jwt", "jwk": w.pub["A"]}, {"jti": "an_identifier", "iat": NOW, "htm": htm, "htu": htu})
    a = ask(ctx, w, req, h, method, url)
    same = ctx.all(htm == method, htu == url)
    if a is None:
        ctx.cover("refused")
        ctx.check(ctx.neg(same), "a good proof is refused")
    else:
        ctx.cover("accepted")
        ctx.check(same, "a proof for another request is accepted")
        bound_to(ctx, w, a, "A")


def claimed(ctx, w):
    """A thumbprint in the request itself changes nothing."""
    ctx.set_time(NOW)
    sid, req = grant_request(ctx, w, refresh=ctx.flag("refresh"))
    req["dpop_jkt"] = ctx.str("dpop_jkt", 50, minlen=1)
    req["cnf"] = {"jkt": thumb(w, "B")}
    k = ctx.pick("key", ["A", "R"])
    h = proof(w, k, SIGNED[k][0], {"typ": "dpop+jwt", "jwk": w.pub[k]}, {"jti": "i", "iat": NOW, "htm": "POST", "htu": URL})
    a = ask(ctx, w, req, h)
    ctx.check(a is not None, "a good proof is refused")
    ctx.cover("bound")
    bound_to(ctx, w, a, k)


def histories(ctx, w):
    """A code redeemed with one key, then refreshed with others: each token carries its own."""
    ctx.set_time(NOW)
    sid, req = grant_request(ctx, w)
    got = []
    for i in range(ctx.params.get("n", 2)):
        k = ctx.pick("key%d" % i, ["A", "B", "R"])
        wrong = ctx.flag("wrong_signer%d" % i)
        s = {"A": "B", "B": "A", "R": "S"}[k] if wrong else k
        h = proof(w, s, SIGNED[s][0], {"typ": "dpop+jwt", "jwk": w.pub[k]}, {"jti": "i%d" % i, "iat": NOW, "htm": "POST", "htu": URL})
        a = ask(ctx, w, req, h)
        ctx.check((a is None) == wrong, "a good proof is refused" if not wrong else "a proof that is not signed by the key inside it is accepted")
        if a is None:
            ctx.cover("refused")
            continue
        bound_to(ctx, w, a, k)
        got.append((a, k))
        ctx.cover("bound_%d" % len(got))
        if "refresh_token" not in a:
            break
        req = {"grant_type": "refresh_token", "refresh_token": a["refresh_token"], "client_id": "client_1", "client_secret": "hemligt_for_client_1"}
    for a, k in got:
        bound_to(ctx, w, a, k)
        t = w.sm[sid].get_token(a["access_token"])
        ctx.check(t.token_type == "DPoP", "the access token is not of the sender-constrained type")


HARNESSES = []
for name, o in (("oidc", False), ("oauth2", True)):
    HARNESSES += [
        Harness("proofs_" + name, proofs, world(o), covers=["refused", "accepted"],
                bounds="three asymmetric keys and a shared one in and over the proof, five algorithms and none, any type <= 12, method <= 6, URI <= 40 chars, "
                       "each in body or header or missing, another key in the body; redeeming and refreshing"),
        Harness("requests_" + name, requests, world(o), covers=["refused", "accepted"], thorough={"n": 60}, bounds="any methods and URIs <= 12 chars (60 when thorough)"),
        Harness("claimed_" + name, claimed, world(o), covers=["bound"], bounds="any thumbprint <= 50 chars in the request"),
        Harness("histories_" + name, histories, world(o), covers=["refused", "bound_2"], thorough={"n": 4},
                bounds="two requests (four when thorough) over three keys, the right or a wrong signer"),
    ]
