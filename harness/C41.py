"""C41: what the provider publishes about itself is what it was configured to be."""
import json

from engine.harness_api import Harness
from harness.world import ISS
from harness.world import World
from harness.world import base_conf

PLACES = {"authorization": "authorization_endpoint", "token": "token_endpoint", "introspection": "introspection_endpoint",
          "registration": "registration_endpoint", "userinfo": "userinfo_endpoint", "session": "end_session_endpoint"}
METHODS = ["client_secret_basic", "client_secret_post", "client_secret_jwt", "private_key_jwt"]
WEAK = ("none", "RSA1_5")


class Fresh(World):
    """No past yet."""

    def warm(self):
        self.start()

    def start(self):
        pass


def base():
    """A provider that was there before, in the same process."""
    w = World()
    w.first = served(None, w)
    return w


def served(ctx, w):
    ep = w.ep("provider_config")
    if ctx is None:
        return json.loads(ep.do_response(request={}, **ep.process_request(ep.parse_request({})))["response"])
    r = ctx.call(ep.parse_request, {})
    ctx.check(r.ok and "error" not in r.value, "the metadata cannot be asked for")
    p = ctx.call(ep.process_request, r.value)
    ctx.check(p.ok and "error" not in p.value, "the metadata is not given")
    d = ctx.call(ep.response_info, p.value["response_args"], {})
    ctx.check(d.ok, "the metadata cannot be delivered")
    return {k: d.value[k] for k in d.value.keys()}


def members(ctx, a, b):
    """The same values."""
    return ctx.all(*[ctx.isin(x, b) for x in a], *[ctx.isin(x, a) for x in b])


def metadata(ctx, w):
    part = ctx.pick("part", ["places", "words", "algs", "auth", "add-on"])
    conf = base_conf()
    cap = conf["capabilities"]
    issuer = ctx.pick("issuer", ["https://op.example.com", "https://op.example.com/", "https://op.example.com/tenant", "https://op.example.com/tenant/"]) \
        if part == "places" else "https://op.example.com"
    conf["issuer"] = issuer
    conf["endpoint"]["session"]["kwargs"]["logout_verify_url"] = issuer + "verify_logout"
    paths, gone = {}, []
    for name in PLACES:
        conf["endpoint"][name]["path"] = paths[name] = ctx.str("path_" + name, 12, 1) if part == "places" else conf["endpoint"][name]["path"]
    if part == "places":
        n = ctx.pick("without", [None, "registration", "introspection", "userinfo", "session"])
        if n:
            del conf["endpoint"][n]
            gone.append(n)
    want = {}
    if part == "words":
        kind = ctx.pick("kind", ["scopes", "claims", "acr", "types", "none"])
        word = [ctx.str("word%d" % i, 12, 1) for i in range(ctx.params["n"])]
        if kind == "scopes":
            cap["scopes_supported"] = want["scopes_supported"] = word
        elif kind == "claims":
            cap["claims_supported"] = want["claims_supported"] = word
        elif kind == "acr":
            conf["authentication"]["anon"]["acr"] = word[0]
            want["acr_values_supported"] = [word[0]]
        elif kind == "types":
            cap["subject_types_supported"] = want["subject_types_supported"] = word
            cap["claims_parameter_supported"] = want["claims_parameter_supported"] = ctx.flag("claims_parameter")
            cap["request_uri_parameter_supported"] = want["request_uri_parameter_supported"] = ctx.flag("request_uri")
    algs = None
    if part == "algs":
        where, attr = ctx.pick("where", [("authorization", "request_object_signing_alg_values_supported"), ("userinfo", "userinfo_signing_alg_values_supported"),
                                         ("token", "token_endpoint_auth_signing_alg_values_supported"), ("userinfo", "userinfo_encryption_alg_values_supported"),
                                         ("userinfo", "userinfo_encryption_enc_values_supported")])
        algs = ctx.pick("algs", [["RS256"], ["ES256", "RS256"], ["none"], ["A256KW"], ["RSA-OAEP", "RSA1_5"], ["A256GCM"], ["XS256"], ["RS256", "rs256"], [""], ["RS25", "6"], None])
        if algs is not None:
            conf["endpoint"][where]["kwargs"][attr] = list(algs)
    if part == "add-on":
        # scopes and claims the custom_scopes add-on brings
        scope, claims = "research", [ctx.str("claim%d" % i, 12, 1) for i in range(ctx.params["n"])]
        conf["add_on"] = {"custom_scopes": {"function": "oidcop.oidc.add_on.custom_scopes.add_custom_scopes", "kwargs": {scope: claims}}}
        want["scopes_supported"] = w.first["scopes_supported"] + [scope]
        want["claims_supported"] = w.first["claims_supported"] + claims
    methods = None
    if part == "auth":
        methods = [m for m in METHODS if ctx.flag(m)]
        ctx.assume(methods)
        conf["endpoint"]["token"]["kwargs"]["client_authn_method"] = list(methods)
    was = {k: list(v) if isinstance(v, list) else v for k, v in cap.items()}
    made = ctx.call(Fresh, conf=conf)
    if part == "algs" and algs is not None:
        kind = "sign" if "signing" in attr else "alg" if "encryption_alg" in attr else "enc"
        known = ctx.all(*[ctx.any(*[a == k for k in KNOWN[kind]]) for a in algs])
        if not made.ok:
            ctx.cover("refused at startup")
            ctx.check(ctx.neg(known), "a provider with algorithms there are is not started")
            return
        ctx.check(known, "a provider is started with an algorithm there is not")
        want[attr] = algs
    ctx.check(made.ok, "the provider is not started")
    p = made.value
    got = served(ctx, p)
    ctx.cover("published")
    ctx.check(got["issuer"] == issuer, "the issuer is another one")
    sep = "" if issuer.endswith("/") else "/"
    for name, key in PLACES.items():
        if name in gone:
            ctx.check(key not in got, "an endpoint is published that is not there: " + key)
        else:
            ctx.check(got[key] == issuer + sep + paths[name], "an endpoint is published at another place: " + key)
            ctx.check(p.ep(name).full_path == got[key], "an endpoint thinks it is elsewhere than published")
    for k, v in was.items():
        if k not in want:
            ctx.check(k in got and got[k] == v, "a configured capability is published differently: " + k)
    for k, v in want.items():
        ctx.check(members(ctx, got[k], v) if isinstance(v, list) else got[k] == v, "what is configured is not what is published: " + k)
    for k in got:
        if "_alg_values_supported" in k or "_enc_values_supported" in k:
            if k not in want:
                ctx.check(not [x for x in got[k] if x in WEAK], "a weak algorithm nobody configured is published: " + k)
    ctx.check(got["token_endpoint_auth_methods_supported"] == (methods or METHODS), "the token endpoint's methods are not those configured")
    ctx.check([m.tag for m in p.ep("token").client_authn_method] == (methods or METHODS), "the token endpoint works with other methods than published")
    # what is published says nothing of what is the provider's own affair
    text = "".join(str(k) for k in got)
    for secret in ("session_params", "password", "key_conf", "salt", "cookie_handler", "token_handler_args"):
        ctx.check(secret not in text, "something private is published")
    # whatever happens later, to it or to others, does not change it
    if ctx.params["later"] and part != "places":
        World.warm(p)
        again = served(ctx, p)
        ctx.check(set(again) == set(got), "what is published changes with use")
        for k in got:
            ctx.check(again[k] == got[k], "what is published changes with use: " + k)
    other = served(None, w)
    ctx.check(other == w.first, "another provider in the same process publishes something else now")
    later = Fresh()
    ctx.check(served(None, later) == w.first, "a provider started later publishes what another one was configured with")


def finder():
    def tweak(conf):
        conf["endpoint"]["webfinger"] = {"path": ".well-known/webfinger", "class": "oidcop.oidc.discovery.Discovery", "kwargs": {}}

    return World(tweak=tweak)


def webfinger(ctx, w):
    """Whoever is asked about: this provider is the issuer."""
    ep = w.ep("discovery")
    who = ctx.str("resource", 30, 1)
    r = ctx.call(ep.parse_request, {"resource": who, "rel": "http://openid.net/specs/connect/1.0/issuer"})
    ctx.check(r.ok and "error" not in r.value, "the question is refused")
    p = ctx.call(ep.process_request, r.value)
    ctx.check(p.ok, "no answer")
    d = ctx.call(ep.do_response, request=r.value, **p.value)
    ctx.check(d.ok, "the answer cannot be delivered")
    got = ctx.call(json.loads, d.value["response"])
    ctx.check(got.ok, "the answer is not JSON")
    ctx.cover("found")
    ctx.check(got.value["subject"] == who, "the answer is about somebody else")
    ctx.check(len(got.value["links"]) == 1, "more than the issuer is given")
    link = got.value["links"][0]
    ctx.check(link["rel"] == "http://openid.net/specs/connect/1.0/issuer" and link["href"] == ISS, "another issuer is given")
    ctx.check(("Content-type", "application/json") in d.value["http_headers"], "the answer is not called JSON")


def _known():
    from cryptojwt import jwe
    from cryptojwt.jws.jws import SIGNER_ALGS

    return {"sign": list(SIGNER_ALGS), "alg": list(jwe.SUPPORTED["alg"]), "enc": list(jwe.SUPPORTED["enc"])}


KNOWN = _known()

HARNESSES = [
    Harness("metadata", metadata, base, covers=["published", "refused at startup"], quick={"n": 1, "later": True}, thorough={"n": 2, "later": True},
            bounds="any endpoint paths, scope/claim/class/subject type words, custom scopes; algorithm names right and wrong; four shapes of issuer; any subset of authentication methods; endpoints missing"),
    Harness("webfinger", webfinger, finder, covers=["found"], bounds="any resource"),
]
