"""C12: JWT client assertions bind issuer, subject, audience, time and signature."""
import json

from cryptojwt.jwe.jwe import JWE
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jwk.jwk import key_from_jwk_dict
from cryptojwt.jws.jws import JWS

from engine.harness_api import Harness
from harness.world import ISS
from harness.world import World
from harness.world import jwks

BIG = 1 << 40
SKEW = 15  # the leeway of the JWT library
METHODS = [["client_secret_jwt"], ["private_key_jwt"], ["client_secret_jwt", "private_key_jwt"], ["private_key_jwt", "client_secret_jwt"]]
BEARER = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
SIGNERS = ["client_1:RS256", "client_1:ES256", "client_1:HS256", "client_2:RS256", "client_2:HS256", "op:RS256", "guess:HS256", "none", "encrypted"]


def _world(oauth2, methods=None):
    def tweak(conf):
        conf["endpoint"]["token"]["kwargs"]["client_authn_method"] = ["client_secret_jwt", "private_key_jwt", "request_param"]

    w = World(oauth2=oauth2, tweak=tweak)
    enc = [dict(k, use="enc", kid="enc") for k in jwks("op_jwks.json")["keys"] if k["kty"] == "RSA"]
    w.ctx.keyjar.import_jwks({"keys": enc}, "")
    w.ctx.keyjar.import_jwks({"keys": enc}, ISS)
    w.pub = w.ctx.keyjar.get("enc", "RSA", "")
    ep = w.ep("token")
    w.methods = {m.tag: m for m in ep.client_authn_method}
    w.target = ep.full_path
    return w


def oidc():
    return _world(False)


def oauth2():
    return _world(True)


def signed(ctx, w, who, claims):
    if who == "none":
        return JWS(json.dumps(claims), alg="none").sign_compact()
    if who == "encrypted":
        return JWE(json.dumps(claims).encode(), alg="RSA-OAEP", enc="A128CBC-HS256").encrypt(keys=w.pub)
    signer, alg = who.split(":")
    if alg == "HS256":
        secret = "hemligt_for_client_3" if signer == "guess" else w.ctx.cdb[signer]["client_secret"]
        key = SYMKey(key=secret)
    else:
        typ = "RSA" if alg == "RS256" else "EC"
        key = next(key_from_jwk_dict(k) for k in jwks(signer.replace("_", "") + "_jwks.json")["keys"] if k["kty"] == typ)
    return JWS(json.dumps(claims), alg=alg).sign_compact(keys=[key])


def present(ctx, w, token, methods, **extra):
    ep = w.ep("token")
    ep.client_authn_method = [w.methods[m] for m in methods]
    req = {"grant_type": "authorization_code", "code": "x", "redirect_uri": "y", "client_assertion_type": BEARER}
    req.update(extra)
    if methods == ["request_param"]:
        req["request"] = token
    else:
        req["client_assertion"] = token
    r = ctx.call(ep.client_authentication, ep.request_cls(**req), {})
    if r.ok and r.value and r.value.get("client_id"):
        return r.value["client_id"]
    return None


def good_key(who, iss, methods):
    """The signature is by the issuer's own key, of a kind that is allowed."""
    signer, _, alg = who.partition(":")
    if methods == ["request_param"]:
        return signer == iss
    return signer == iss and ("client_secret_jwt" if alg == "HS256" else "private_key_jwt") in methods


def assertion(ctx, w):
    """One assertion, anything in it."""
    signature = ctx.flag("signature")
    if signature:
        # who signed it, how and for whom
        who = ctx.pick("signer", SIGNERS)
        methods = ctx.pick("methods", METHODS)
    else:
        # what it says, by either client
        who = ctx.pick("signer", SIGNERS[:5])
        methods = METHODS[2]
    now = ctx.int("now", 1, BIG)
    concrete = who == "encrypted"  # no symbolic content here: the encryption is done for real
    ctx.set_time(now)
    iss = ctx.pick("iss", ["client_1", "client_2", "nobody", ISS, None]) if signature else who.split(":")[0]
    claims, named = {"jti": "one"}, {}
    if iss is not None:
        claims["iss"] = iss
    good = iss in ("client_1", "client_2") and good_key(who, iss, methods)
    sub = ctx.pick("sub", ["any", "client_1", "client_2", None]) if not signature else iss
    if sub is not None:
        claims["sub"] = sub if sub != "any" or concrete else ctx.str("subject", 10, 1)
        good = ctx.all(good, ctx.eq(claims["sub"], iss or ""))
    aud = ctx.pick("aud", ["none", "any", "two", "endpoint"]) if not signature else "endpoint"
    if aud != "none":
        other = ctx.str("audience", 40) if not concrete else "https://other.example.com"
        claims["aud"] = {"any": other, "two": [other, w.target], "endpoint": [w.target]}[aud]
        if aud == "any":
            # the token endpoint itself, and for it alone: other endpoints are also told by the issuer
            good = ctx.all(good, ctx.any(other == w.target))
    else:
        good = False
    if not concrete:
        if ctx.flag("has_exp"):
            claims["exp"] = ctx.int("exp", 1, BIG)
            good = ctx.all(good, now <= claims["exp"] + SKEW)
        times = ctx.pick("extra", ["", "nbf", "iat", "client_1", "client_2"])
        if times in ("nbf", "iat"):
            claims[times] = ctx.int(times, 1, BIG)
        elif times:
            named["client_id"] = times
    ctx.set_time(now)
    token = signed(ctx, w, who, claims)
    cid = present(ctx, w, token, methods, **named)
    if cid is not None:
        ctx.check(good, "an assertion that does not prove it authenticates a client")
        ctx.check(cid == iss, "the request is attributed to another client than the one that made the assertion")
        ctx.cover("authenticated")
    else:
        if concrete or "nbf" not in claims and "iat" not in claims:
            ctx.check(ctx.neg(good), "a good assertion is refused")
        ctx.cover("refused")


def replayed(ctx, w):
    """Two assertions in a row; identifiers are used once per client."""
    now = ctx.int("now", 1, BIG)
    methods = ctx.pick("methods", [["client_secret_jwt", "private_key_jwt"], ["request_param"]])
    seen = []
    for i in range(ctx.params.get("n", 2)):
        ctx.set_time(now)
        c = ctx.pick("client%d" % i, ["client_1", "client_2"])
        alg = ctx.pick("alg%d" % i, ["RS256", "HS256"])
        jti = ctx.str("jti%d" % i, 8, 1)
        same = bool(seen) and ctx.flag("same_token%d" % i)
        if same:
            token, c, jti = last
        else:
            token = signed(ctx, w, c + ":" + alg, {"iss": c, "sub": c, "aud": [w.target], "jti": jti, "exp": now + 300})
        last = token, c, jti
        cid = present(ctx, w, token, methods)
        used = ctx.any(*[ctx.all(x == c, y == jti) for x, y in seen]) if seen else False
        if cid is not None:
            ctx.check(ctx.neg(used), "an identifier is accepted twice")
            ctx.check(cid == c, "the request is attributed to another client than the one that made the assertion")
            seen.append((c, jti))
            ctx.cover("accepted")
        else:
            ctx.check(used, "a good assertion is refused")
            ctx.cover("used")
        now = now + ctx.int("wait%d" % i, 0, 200)


def request_object(ctx, w):
    """Authentication by a signed request object: only the client's own signature counts."""
    who = ctx.pick("signer", SIGNERS)
    now = ctx.int("now", 1, BIG)
    ctx.set_time(now)
    iss = ctx.pick("iss", ["client_1", "client_2", "nobody", ISS, None])
    claims = {"aud": ISS, "jti": "one"}
    if iss is not None:
        claims["iss"] = iss
    if who != "encrypted":
        claims["exp"] = ctx.int("exp", 1, BIG)
    cid = present(ctx, w, signed(ctx, w, who, claims), ["request_param"])
    good = iss in ("client_1", "client_2") and good_key(who, iss, ["request_param"])
    if "exp" in claims:
        good = ctx.all(good, now <= claims["exp"] + SKEW)
    if cid is not None:
        ctx.check(good, "a request object that the client did not sign authenticates it")
        ctx.check(cid == iss, "the request is attributed to another client")
        ctx.cover("authenticated")
    else:
        ctx.check(ctx.neg(good), "a good request object is refused")
        ctx.cover("refused")


HARNESSES = [
    Harness("assertion", assertion, oidc, covers=["authenticated", "refused"],
            bounds="ten kinds of signature, five issuers, any subject (10) and audience (40 characters), any times, four sets of allowed methods"),
    Harness("assertion_oauth2", assertion, oauth2, covers=["authenticated", "refused"], bounds="the same at the OAuth 2.0 token endpoint"),
    Harness("replayed", replayed, oidc, covers=["accepted", "used"], quick={"n": 2}, thorough={"n": 3},
            bounds="two (thorough: three) assertions by either client with arbitrary identifiers up to 8 characters"),
    Harness("request_object", request_object, oidc, covers=["authenticated", "refused"], bounds="ten kinds of signature, five issuers, any time"),
]
