"""C38: request objects count only as signed by the client, and what they say holds."""
import json

from cryptojwt.jwe.jwe import JWE
from oidcmsg.oauth2 import JWTSecuredAuthorizationRequest

from engine.harness_api import Harness
from harness import C12
from harness.C14 import grants
from harness.C14 import nothing
from harness.C14 import submit
from harness.C24 import Answer
from harness.common import all_tokens
from harness.world import ISS
from harness.world import World
from harness.world import jwks

HERE = "https://rp1.example.com/cb"
THERE = "https://rp1.example.com/cb2"
DOC = "https://rp1.example.com/request"
SIGNERS = ["client_1:RS256", "client_1:ES256", "client_1:HS256", "client_2:RS256", "client_2:HS256", "op:RS256", "guess:HS256",
           "none", "plain", "encrypted", "encrypted client_1:RS256", "encrypted none"]
REGISTERED = [None, "RS256", "ES256", "HS256", "RS384"]


def _world(oauth2):
    def tweak(conf):
        if oauth2:
            conf["endpoint"]["authorization"]["kwargs"]["request_cls"] = JWTSecuredAuthorizationRequest

    w = World(oauth2=oauth2, tweak=tweak)
    enc = [dict(k, use="enc", kid="enc") for k in jwks("op_jwks.json")["keys"] if k["kty"] == "RSA"]
    w.ctx.keyjar.import_jwks({"keys": enc}, "")
    w.ctx.keyjar.import_jwks({"keys": enc}, ISS)
    w.pub = w.ctx.keyjar.get("enc", "RSA", "")
    for c in ("client_1", "client_2"):
        base = w.ctx.cdb[c]["redirect_uris"][0][0]
        w.ctx.cdb[c]["redirect_uris"] = [(base, None), (base + "2", None)]
    return w


def oidc():
    return _world(False)


def oauth2():
    return _world(True)


class Client:
    """The provider's HTTP client: serves one document at every address."""

    def __init__(self, text, status):
        self.text, self.status, self.asked = text, status, []

    def get(self, url, **kw):
        self.asked.append(url)
        r = Answer(self.text)
        r.status_code = self.status
        return r


def made(ctx, w, who, claims):
    if who == "plain":
        return json.dumps(claims)
    if who.startswith("encrypted "):
        inner = C12.signed(ctx, w, who[10:], claims)
        return JWE(inner.encode(), alg="RSA-OAEP", enc="A128CBC-HS256", cty="JWT").encrypt(keys=w.pub)
    return C12.signed(ctx, w, who, claims)


def allowed(who, iss, reg):
    """Signed by the client itself, with an algorithm it may use."""
    who = who[10:] if who.startswith("encrypted ") else who
    signer, _, alg = who.partition(":")
    return signer == "client_1" and iss in (None, "client_1") and reg in (None, alg)


def said(ctx, w, values):
    """The one grant there is holds the values of the object."""
    gs = grants(w.sm)
    ctx.check(len({id(g) for g in gs}) == 1, "not exactly one grant")
    for k, v in values.items():
        ctx.check(gs[0].authorization_request.get(k) == v, "the grant is not for what the request object says: " + k)


def objects(ctx, w):
    """Any signature over an object that differs from the plain parameters."""
    who = ctx.pick("signer", SIGNERS)
    iss = ctx.pick("iss", ["client_1", "client_2", ISS, None])
    # the provider always names itself in what it signs
    ctx.assume(not (iss is None and who == "op:RS256"))
    reg = ctx.pick("registered", REGISTERED)
    how = ctx.pick("how", ["value", "reference"])
    if reg:
        w.ctx.cdb["client_1"]["request_object_signing_alg"] = reg
    concrete = who.startswith("encrypted")  # encrypted for real
    state, nonce = ("INNER", "NINNER") if concrete else (ctx.str("state", 12, 1), ctx.str("nonce", 12, 1))
    inner = {"client_id": "client_1", "scope": "openid email", "state": state, "response_type": "code", "redirect_uri": THERE, "aud": ISS}
    if not w.oauth2:
        inner["nonce"] = nonce
    if iss:
        inner["iss"] = iss
    outer = {"client_id": "client_1", "scope": "openid", "state": "OUTER", "response_type": "code", "redirect_uri": HERE}
    if w.oauth2 and how == "value":
        # what is in both has to be the same there
        outer = {"client_id": "client_1"}
    text = made(ctx, w, who, inner)
    if how == "value":
        outer["request"] = text
    else:
        w.ctx.httpc = Client(text, 200)
        w.ctx.cdb["client_1"]["request_uris"] = [(DOC, {})]
        outer["request_uri"] = DOC
    before = len(grants(w.sm)), len(all_tokens(w.sm))
    kind, a = submit(ctx, w, outer)
    good = allowed(who, iss, reg)
    if kind == "answer":
        ctx.check(good, "a request object that the client may not sign like that is used")
        want = {"state": state, "redirect_uri": THERE, "scope": ["openid", "email"]}
        if not w.oauth2:
            want["nonce"] = nonce
        said(ctx, w, want)
        ctx.check(a.get("state") == state, "the answer has another state than the request object")
        ctx.check(a.get("return_uri") == THERE, "the answer goes somewhere else than the request object says")
        ctx.cover("used")
        return
    nothing(ctx, w, kind, a, before)
    # by value the signature is looked for among the issuer's keys
    ctx.check(not (good and (iss or how == "reference")), "a good request object is refused")
    ctx.cover("refused")


def references(ctx, w):
    """Any reference: only registered ones are followed."""
    registered = ctx.pick("registered", ["one", "two", "nested"])
    docs = {"one": [DOC], "two": [DOC + "/a", DOC + "/b?x=1"], "nested": [DOC + "/a", DOC + "/ab"]}[registered]
    w.ctx.cdb["client_1"]["request_uris"] = [(d, {}) for d in docs]
    w.ctx.cdb["client_2"]["request_uris"] = [("https://rp2.example.com/request", {})]
    supported = ctx.flag("supported")
    w.ctx.provider_info["request_uri_parameter_supported"] = supported
    # any end, or any beginning
    d = ctx.pick("near", docs)
    n = ctx.params["n"]
    if ctx.flag("end"):
        uri = d[:len(d) - n] + ctx.chars("address", 2 * n, 0, "/#?reqx=1ab")
    else:
        uri = ctx.chars("address", n + 1, 0, "https:#") + d[n:]
    base = uri
    for i in range(len(uri)):
        if uri[i] == "#":
            base = uri[:i]
            break
    hit = ctx.any(*[base == x for x in docs])
    status = ctx.pick("status", [200, 404])
    inner = {"client_id": "client_1", "scope": "openid", "state": "INNER", "response_type": "code", "redirect_uri": THERE, "iss": "client_1", "aud": ISS}
    http = w.ctx.httpc = Client(C12.signed(ctx, w, "client_1:RS256", inner), status)
    before = len(grants(w.sm)), len(all_tokens(w.sm))
    kind, a = submit(ctx, w, {"client_id": "client_1", "scope": "openid", "state": "OUTER", "response_type": "code", "redirect_uri": HERE, "request_uri": uri})
    good = ctx.all(hit, supported, status == 200)
    for u in http.asked:
        ctx.check(ctx.all(hit, supported), "a document is fetched from an address that is not registered")
        ctx.check(u == uri, "a document is fetched from somewhere else")
    if kind == "answer":
        ctx.check(good, "a reference that must not be followed is")
        said(ctx, w, {"state": "INNER"})
        ctx.cover("used")
        return
    nothing(ctx, w, kind, a, before)
    ctx.check(ctx.neg(good), "a good reference is refused")
    ctx.cover("refused")


def rules(ctx, w):
    """What a direct request has to fulfil, one with an object has to fulfil, too."""
    how = ctx.pick("how", ["value", "reference"])
    inner = {"client_id": "client_1", "scope": ctx.pick("scope", ["openid", "email"]), "state": ctx.str("state", 12, 1),
             "response_type": ctx.pick("type", ["code", "id_token", "code id_token", "token"]),
             "redirect_uri": ctx.pick("uri", [THERE, "https://rp2.example.com/cb"]), "aud": ISS, "iss": "client_1"}
    w.ctx.cdb["client_1"]["response_types"] = ctx.pick("types", [["code", "id_token", "code id_token"], ["code", "token"]])
    nonce = ctx.flag("with nonce")
    if nonce:
        inner["nonce"] = ctx.str("nonce", 12, 1)
    if ctx.flag("mode"):
        inner["response_mode"] = ctx.str("response_mode", 12, 1)
    prompt = ctx.pick("prompt", [None, "login", "none login"])
    if prompt:
        inner["prompt"] = prompt
    outer = {"client_id": "client_1", "scope": "openid", "state": "OUTER", "response_type": "code", "redirect_uri": HERE}
    text = C12.signed(ctx, w, "client_1:RS256", inner)
    if how == "value":
        outer["request"] = text
    else:
        w.ctx.httpc = Client(text, 200)
        w.ctx.cdb["client_1"]["request_uris"] = [(DOC, {})]
        outer["request_uri"] = DOC
    before = len(grants(w.sm)), len(all_tokens(w.sm))
    kind, a = submit(ctx, w, outer)
    good = inner["scope"] == "openid" and inner["redirect_uri"] == THERE and inner["response_type"] in w.ctx.cdb["client_1"]["response_types"] \
        and (nonce or "id_token" not in inner["response_type"]) and prompt != "none login"
    if "response_mode" in inner:
        good = ctx.all(good, ctx.any(*[inner["response_mode"] == m for m in ("query", "fragment", "form_post")]))
    if kind == "answer":
        ctx.check(good, "a request object makes good what a direct request would be refused for")
        ctx.cover("used")
        return
    ctx.check(not any(k in a for k in ("code", "access_token", "id_token")), "an error answer carries a code or token")
    if "response_mode" not in inner:
        ctx.check(ctx.neg(good), "a good request object is refused")
    ctx.cover("refused")


HARNESSES = [
    Harness("objects_oidc", objects, oidc, covers=["used", "refused"],
            bounds="twelve kinds of signature and encryption, three issuers, five registrations, by value and by reference; any state and nonce up to 12 characters"),
    Harness("objects_oauth2", objects, oauth2, covers=["used", "refused"], bounds="the same at an OAuth 2.0 endpoint for JWT secured requests"),
    Harness("references", references, oidc, covers=["used", "refused"], quick={"n": 1}, thorough={"n": 2},
            bounds="one or two registered addresses; addresses that differ in the first n or last 2n characters, fragments included; supported or not; found or not"),
    Harness("rules", rules, oidc, covers=["used", "refused"],
            bounds="scope, type, URI, nonce, mode (any up to 12 characters), prompt; by value and by reference"),
]
