"""C24: dynamic client registration."""
import json

import oidcop.oidc.registration as registration
from oidcmsg.oidc import RegistrationRequest

from engine.harness_api import Harness
from harness.world import NOW
from harness.world import World

GIVEN = ["client_id", "client_secret", "client_secret_expires_at", "client_id_issued_at", "client_salt", "registration_access_token",
         "registration_client_uri"]
SINGLE = ["request_object_signing_alg", "request_object_encryption_alg", "request_object_encryption_enc", "userinfo_signed_response_alg",
          "userinfo_encrypted_response_alg", "userinfo_encrypted_response_enc", "id_token_signed_response_alg",
          "id_token_encrypted_response_alg", "id_token_encrypted_response_enc", "subject_type", "token_endpoint_auth_method",
          "token_endpoint_auth_signing_alg"]
SUPPORTED = {
    "request_object_signing_alg": "request_object_signing_alg_values_supported",
    "request_object_encryption_alg": "request_object_encryption_alg_values_supported",
    "request_object_encryption_enc": "request_object_encryption_enc_values_supported",
    "userinfo_signed_response_alg": "userinfo_signing_alg_values_supported",
    "userinfo_encrypted_response_alg": "userinfo_encryption_alg_values_supported",
    "userinfo_encrypted_response_enc": "userinfo_encryption_enc_values_supported",
    "id_token_signed_response_alg": "id_token_signing_alg_values_supported",
    "id_token_encrypted_response_alg": "id_token_encryption_alg_values_supported",
    "id_token_encrypted_response_enc": "id_token_encryption_enc_values_supported",
    "default_acr_values": "acr_values_supported",
    "subject_type": "subject_types_supported",
    "token_endpoint_auth_method": "token_endpoint_auth_methods_supported",
    "token_endpoint_auth_signing_alg": "token_endpoint_auth_signing_alg_values_supported",
    "response_types": "response_types_supported",
    "grant_types": "grant_types_supported",
}


def tweak(conf):
    conf["endpoint"]["registration_read"] = {
        "path": "registration_api", "class": "oidcop.oidc.read_registration.RegistrationRead",
        "kwargs": {"client_authn_method": ["bearer_header"]},
    }


def setup():
    return World(tweak=tweak)


def state(w):
    jar = w.ctx.keyjar
    return (sorted(w.ctx.cdb.keys()), sorted(w.ctx.registration_access_token.items()),
            sorted((o, str(k.key)) for o in jar.owners() for k in jar.get_issuer_keys(o) if k.kty == "oct"),
            {k: sorted(v.keys()) for k, v in w.ctx.cdb.items()})


def register(ctx, w, req):
    """-> the registration response, or None if refused"""
    ep = w.ep("registration")
    p = ctx.call(ep.parse_request, req)
    if not p.ok or "error" in p.value:
        return None
    r = ctx.call(ep.process_request, p.value)
    if not r.ok or "error" in r.value:
        return None
    return r.value["response_args"]


def message(req):
    return RegistrationRequest(**req).to_json()


HOSTS = ["localhost", "127.0.0.1", "app.example.com", "localhost.example.com", "localhost:8080", "localhost@example.com",
         "example.com@localhost", ""]
LOCAL = {"localhost", "127.0.0.1", "localhost:8080", "example.com@localhost"}


def redirects(ctx, w):
    """Redirect URIs of every kind for either application type."""
    ctx.set_time(NOW)
    kind = ctx.pick("application_type", ["absent", "web", "native"])
    types = ctx.pick("response_types", [None, ["code"], ["code", "code id_token"], ["id_token"]])
    uris, good = [], True
    n = ctx.pick("n", [1, 2][: ctx.params.get("n", 1)])
    for i in range(n):
        scheme = ctx.pick("scheme%d" % i, ["https", "http", "HTTP", "com.example.app", "none", "any"] if i == 0 else ["https", "http", "com.example.app"])
        if scheme == "any":
            scheme = "x" + ctx.chars("scheme%d.text" % i, 3, alphabet=(97, 122))
        elif scheme == "none":
            scheme = ""
        host = ctx.pick("host%d" % i, HOSTS if i == 0 else HOSTS[:3:2])
        rest = ctx.chars("rest%d" % i, ctx.params.get("rest", 2) if n == 1 else 1, alphabet="#?&=/a%" if len(uris) == 0 else "#a")
        u = (scheme + "://" if scheme else "//") + host + "/" + rest
        uris.append(u)
        low = scheme.lower() if isinstance(scheme, str) and scheme in ("https", "http", "HTTP") else None
        if kind == "native":
            ok = scheme != "" and low != "https" and (low != "http" or host in LOCAL)
        else:
            ok = low == "https" or (low == "http" and types in (None, ["code"]))
        good = ctx.all(good, ok, ctx.neg(fragment(ctx, rest)))
    req = {"redirect_uris": uris}
    if kind != "absent":
        req["application_type"] = kind
    if types:
        req["response_types"] = types
    before = state(w)
    a = register(ctx, w, req)
    if a is None:
        ctx.cover("refused")
        ctx.check(state(w) == before, "a refused registration leaves something behind")
        return
    ctx.cover("admitted")
    ctx.check(good, "a redirect URI that does not fit the application type, or has a fragment, is admitted")
    for base, query in w.ctx.cdb[a["client_id"]]["redirect_uris"]:
        at = base.find("#")
        ctx.check(ctx.any(at == -1, at == len(base) - 1), "a redirect URI with a fragment is stored")
    ctx.check(len(a["redirect_uris"]) == len(uris), "not every redirect URI is answered")


def fragment(ctx, rest):
    """A non-empty fragment."""
    if rest == "":
        return False
    return ctx.any(False, *[ctx.all(rest[j] == "#") for j in range(len(rest) - 1)])


def negotiated(ctx, w):
    """A value for each parameter that is negotiated, supported or not."""
    ctx.set_time(NOW)
    w.ctx.provider_info["acr_values_supported"] = ["urn:one", "urn:two"]
    name = ctx.pick("parameter", SINGLE + ["response_types", "grant_types", "default_acr_values"])
    if ctx.flag("few_supported"):
        w.ctx.provider_info[SUPPORTED[name]] = list(w.ctx.provider_info[SUPPORTED[name]])[:1]
    have = list(w.ctx.provider_info[SUPPORTED[name]])
    req = {"redirect_uris": ["https://app.example.com/cb"]}
    if name in SINGLE:
        known = ctx.pick("value", ["free"] + EXAMPLES.get(name, ["RS256", "none", "ES256"]))
        value = known if known != "free" else ctx.str("text", 12, 1)
        req[name] = value
        if name.endswith("_enc"):
            alg = name[:-4] + "_alg"
            req[alg] = list(w.ctx.provider_info[SUPPORTED[alg]])[0]
        good = ctx.isin(value, have)
    else:
        options = {"response_types": ["code", "id_token code", "code id_token", "token", "none code", "code code"],
                   "grant_types": ["authorization_code", "implicit", "refresh_token", "password"],
                   "default_acr_values": ["urn:one", "urn:two", "urn:three"]}[name]
        values = [ctx.pick("value0", options)]
        if ctx.flag("two"):
            values.append(ctx.pick("value1", options))
        req[name] = values
        good = all(set(v.split(" ")) in [set(h.split(" ")) for h in have] for v in values)
    before = state(w)
    a = register(ctx, w, req)
    if a is None:
        ctx.cover("refused")
        ctx.check(state(w) == before, "a refused registration leaves something behind")
        return
    ctx.cover("admitted")
    ctx.check(good, "a value the provider does not support is admitted")


EXAMPLES = {"subject_type": ["public", "pairwise", "ephemeral"],
            "token_endpoint_auth_method": ["client_secret_post", "private_key_jwt", "none"],
            "request_object_encryption_alg": ["RSA-OAEP", "dir"], "userinfo_encrypted_response_alg": ["RSA-OAEP", "dir"],
            "id_token_encrypted_response_alg": ["RSA-OAEP", "dir"]}
EXAMPLES.update({k[:-4] + "_enc": ["A128CBC-HS256", "A128GCM", "A64GCM"] for k in list(EXAMPLES) if k.endswith("_alg")})


class Answer:
    def __init__(self, text):
        self.text = text


class Client:
    """The provider's HTTP client, reading the sector identifier document."""

    def __init__(self, ctx, text):
        self.ctx, self.text, self.asked = ctx, text, []

    def get(self, url, **kw):
        self.asked.append(url)
        if self.text is None:
            raise ConnectionError("unreachable")
        return Answer(self.text)


class Words:
    """Stands in for the random strings: fresh ones, after some that are already in use."""

    def __init__(self, clashes):
        self.n, self.clashes = 0, list(clashes)

    def __call__(self, size=16, **kw):
        if size == 16 and self.clashes:
            return self.clashes.pop(0)
        self.n += 1
        return "fresh%06d" % self.n


REASONS = ["none", "scheme", "fragment", "type", "sector_unreachable", "sector_text", "sector_other", "policy", "request_uri", "post_logout",
           "algorithm", "no_redirect", "bad_uri", "broken_uri", "sector_right", "policy_right", "keys", "initiate", "none_alg", "app_type", "hashes"]


def request_for(ctx, reason):
    own = "https://app.example.com/cb"
    req = {"redirect_uris": [own]}
    text = json.dumps([own])
    if reason == "scheme":
        req["redirect_uris"] = [own, "com.example.app://cb"]
    elif reason == "fragment":
        req["redirect_uris"] = [own, own + "#frag"]
    elif reason == "type":
        req["response_types"] = ["code", "strange"]
    elif reason.startswith("sector"):
        req["sector_identifier_uri"] = "https://app.example.com/sector.json"
        if reason == "sector_unreachable":
            text = None
        elif reason == "sector_text":
            text = "<html>"
        elif reason == "sector_other":
            text = json.dumps(["https://other.example.com/cb"])
    elif reason == "policy":
        req[ctx.pick("page", ["policy_uri", "logo_uri", "tos_uri"])] = ctx.pick("elsewhere", ["https://evil.example.com/p", "http://app.example.com/p"])
    elif reason == "policy_right":
        req["policy_uri"] = "https://app.example.com/policy"
    elif reason == "request_uri":
        req["request_uris"] = ["https://app.example.com/r?x=1"]
    elif reason == "hashes":
        req["request_uris"] = ["https://app.example.com/r#one#two"]
    elif reason == "post_logout":
        req["post_logout_redirect_uri"] = "https://app.example.com/out#x"
    elif reason == "algorithm":
        req["id_token_signed_response_alg"] = "XX999"
    elif reason == "no_redirect":
        del req["redirect_uris"]
    elif reason == "bad_uri":
        req["redirect_uris"] = ["https://[::1/cb"]
    elif reason == "broken_uri":
        req["policy_uri"] = "https://[::1/policy"
    elif reason == "keys":
        req["jwks"] = {"keys": [{"kty": "RSA", "n": "!", "e": "AQAB"}]}
    elif reason == "initiate":
        req["initiate_login_uri"] = "http://app.example.com/login"
    elif reason == "none_alg":
        req["token_endpoint_auth_signing_alg"] = "none"
    elif reason == "app_type":
        req["application_type"] = "spa"
    return req, text


ADMITTED = ["none", "sector_right", "policy_right", "keys"]


def history(ctx, w):
    """A registration, one that may be refused, and one more: what is stored, and what is shared."""
    ctx.set_time(NOW)
    reason = ctx.pick("reason", REASONS)
    extra = {}
    if reason in ADMITTED:
        pushed = ctx.pick("sent_along", ["nothing"] + GIVEN)
        if pushed != "nothing":
            extra[pushed] = {"client_id": "client_1", "client_secret_expires_at": 0, "client_id_issued_at": 1}.get(pushed, "chosen by the client")
    real = registration.rndstr
    registration.rndstr = words = Words([])
    try:
        first = register(ctx, w, message({"redirect_uris": ["https://app.example.com/cb"], **extra}))
        ctx.check(first is not None, "a good registration is refused")
        words.clashes = [first["client_id"], "client_1"] if ctx.flag("clash") else []
        req, text = request_for(ctx, reason)
        req.update(extra)
        w.ctx.httpc = client = Client(ctx, text)
        before = state(w)
        second = register(ctx, w, message(req) if reason != "no_redirect" else json.dumps(req))
        if reason not in ADMITTED:
            ctx.check(second is None, "a registration that must be refused is admitted")
        elif reason != "keys":
            ctx.check(second is not None, "a good registration is refused")
        if second is None:
            ctx.cover("refused")
            ctx.check(state(w) == before, "a refused registration leaves something behind")
        third = register(ctx, w, message({"redirect_uris": ["https://app2.example.com/cb"], **extra}))
        ctx.check(third is not None, "a good registration is refused")
    finally:
        registration.rndstr = real
    done = [a for a in (first, second, third) if a is not None]
    if second is not None:
        ctx.cover("admitted")
    for name in ("client_id", "client_secret", "registration_access_token"):
        values = [a[name] for a in done]
        ctx.check(len(set(values)) == len(values), "two registrations share a " + name)
        ctx.check(all(v not in (extra.get(name), "client_2") for v in values), "the client chose its " + name)
    for a in done:
        i = w.ctx.cdb[a["client_id"]]
        ctx.check(w.ctx.registration_access_token[a["registration_access_token"]] == a["client_id"], "the registration token is another client's")
        ctx.check(i["client_id"] == a["client_id"] and i["client_secret"] == a["client_secret"], "the answer is not what was stored")
        ctx.check(a["client_secret_expires_at"] == NOW + 2592000 and a["client_id_issued_at"] == NOW, "the client chose when its secret expires")
        ctx.check(i["client_salt"] != "chosen by the client", "the client chose its salt")
        keys = [k.key.decode() if isinstance(k.key, bytes) else k.key for k in w.ctx.keyjar.get_issuer_keys(a["client_id"]) if k.kty == "oct"]
        ctx.check(a["client_secret"] in keys and len(set(keys)) == 1, "the secret is not the key kept for the client")
    ctx.check(sorted(w.ctx.registration_access_token.values()) == sorted(a["client_id"] for a in done), "a registration token that nobody was given")
    ctx.check(w.ctx.cdb["client_1"]["client_secret"] == "hemligt_for_client_1", "another client was changed")


HARNESSES = [
    Harness("redirects", redirects, setup, covers=["refused", "admitted"], quick={"n": 1, "rest": 2}, thorough={"n": 2, "rest": 3},
            bounds="n redirect URIs: six kinds of scheme, eight hosts, path/query/fragment of `rest` arbitrary delimiter characters; "
                   "either application type, four sets of response types"),
    Harness("negotiated", negotiated, setup, covers=["refused", "admitted"],
            bounds="each of the fifteen negotiated parameters with any string <= 12 characters or a known value; two supported sets"),
    Harness("history", history, setup, covers=["refused", "admitted"],
            bounds="three registrations, the middle one with one of 21 contents; random identifiers that clash twice; each provider-issued value sent by the client"),
]
