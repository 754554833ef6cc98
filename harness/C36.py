"""C36: authentication methods are chosen by the requested context classes."""
from oidcmsg.oidc import verified_claim_name
from oidcop.user_authn.authn_context import AuthnBroker
from oidcop.user_authn.authn_context import pick_auth

from engine.harness_api import Harness
from harness.C17 import AUTHN
from harness.C17 import area
from harness.world import World

REGISTERED = ["urn:a", "urn:b", "urn:c"]


class Page:
    def __init__(self, name):
        self.name = name

    def render(self, template, **kw):
        return "PAGE:" + self.name


def _world(oauth2=False):
    def several(conf):
        conf["authentication"] = {
            "m%d" % i: dict(AUTHN["user"], acr=a, kwargs=dict(AUTHN["user"]["kwargs"])) for i, a in enumerate(REGISTERED)}

    w = World(oauth2=oauth2, tweak=several)
    w.methods = [w.ctx.authn_broker["m%d" % i]["method"] for i in range(len(REGISTERED))]
    for i, m in enumerate(w.methods):
        m.template_handler = Page("m%d" % i)
    return w


def oidc():
    return _world()


def oauth2():
    return _world(True)


def brokers(ctx, w):
    """Put a broker in place: one to three methods, some of the same class; returns [(id, acr, method)]."""
    n = ctx.pick("methods", [1, 2, 3])
    shape = ctx.pick("classes", {1: ["a"], 2: ["ab", "aa"], 3: ["abc", "aba", "abb", "aaa"]}[n])
    b = AuthnBroker()
    regs = []
    for i, c in enumerate(shape):
        b["m%d" % i] = {"acr": "urn:" + c, "method": w.methods[i]}
        regs.append(("m%d" % i, "urn:" + c, w.methods[i]))
    if n == 3 and ctx.flag("one_removed"):
        gone = ctx.pick("removed", [0, 1, 2])
        del b["m%d" % gone]
        del regs[gone]
    w.ctx.authn_broker = b
    return regs


def wish(ctx, n):
    """Requested classes: registered ones, near misses and arbitrary strings."""
    return [ctx.str("acr%d" % i, 6, 1) if ctx.params.get("free") else ctx.pick("acr%d" % i, REGISTERED + ["urn:", "urn:abc"])
            for i in range(n)]


def wanted(ctx, regs, acrs):
    """The specification: index of the method, or None when there is none to use."""
    for a in acrs or []:
        for i, (_, c, m) in enumerate(regs):
            if a == c:
                return i
    if not acrs or len(regs) == 1:
        return 0
    return None


def put(ctx, w, req, how, acrs):
    """Place the wish in the request; returns the classes that count."""
    if how == "acr_values":
        req["acr_values"] = list(acrs)
        return acrs
    if how == "value":
        req["claims"] = {"id_token": {"acr": {"value": acrs[0]}}}
        return acrs[:1]
    if how == "values":
        req["claims"] = {"id_token": {"acr": {"values": list(acrs), "essential": True}}}
        return acrs
    if how == "both":
        req["acr_values"] = list(acrs)
        req["claims"] = {"id_token": {"acr": {"value": "urn:b"}}}
        return acrs
    if how == "hint":
        req[verified_claim_name("id_token_hint")] = {"sub": "x", "acr": acrs[0]}
        return acrs[:1]
    if how == "login_hint":
        w.ctx.login_hint2acrs = lambda h: list(acrs)
        req["login_hint"] = "tel:1"
        return acrs
    if how == "null":
        req["claims"] = {"id_token": {"acr": None}}
    elif how == "essential":
        req["claims"] = {"id_token": {"acr": {"essential": True}}}
    elif how == "userinfo":
        req["claims"] = {"userinfo": {"acr": {"value": acrs[0]}}}
    return None


HOW = ["acr_values", "value", "values", "both", "hint", "login_hint", "null", "essential", "userinfo", "nothing"]


def choice(ctx, w):
    regs = brokers(ctx, w)
    how = ctx.pick("how", HOW)
    acrs = wish(ctx, ctx.pick("asked", [1, 2, 3]) if how in ("acr_values", "values", "login_hint") else 1)
    req = {"client_id": "client_1", "redirect_uri": "https://rp1.example.com/cb"}
    count = put(ctx, w, req, how, acrs)
    r = ctx.call(pick_auth, w.ctx, req)
    ctx.check(r.ok, "no method can be chosen")
    i = wanted(ctx, regs, count)
    if i is None:
        ctx.check(not r.value, "a method is used although none of the requested classes is available")
        ctx.cover("none")
    else:
        ctx.check(bool(r.value), "no method is used although there is one")
        ctx.check(r.value["acr"] == regs[i][1], "a method of another class is used than the first one asked for")
        ctx.check(any(r.value["method"] is m for _, c, m in regs if c == regs[i][1]), "an unregistered method is used")
        ctx.cover("asked" if count else "default")
    a = ctx.call(pick_auth, w.ctx, req, pick_all=True)
    if a.ok and a.value and isinstance(a.value, list) and i is not None:
        for x in a.value:
            ctx.check(x["acr"] == regs[i][1], "among several acceptable methods there is one of another class")


def endpoint(ctx, w):
    """The same through the authorization endpoint: the page shown is that of the method chosen."""
    regs = brokers(ctx, w)
    how = ctx.pick("how", ["acr_values", "value", "values", "null", "essential", "nothing"] if not w.oauth2 else ["acr_values", "nothing"])
    acrs = [ctx.pick("acr%d" % i, REGISTERED + ["urn:x"]) for i in range(2)]
    req = area(w)
    ep = w.ep("authorization")
    r = ctx.call(ep.parse_request, dict(req))
    ctx.assume(r.ok and "error" not in r.value)
    extra = {}
    count = put(ctx, w, extra, how, acrs)
    for k, v in extra.items():
        r.value[k] = v
    p = ctx.call(ep.process_request, r.value, http_info={})
    ctx.check(p.ok, "the authorization endpoint fails")
    i = wanted(ctx, regs, count)
    if i is None:
        ctx.check("http_response" not in p.value, "the user is asked to authenticate by a method of another class")
        ctx.check("error" in p.value or "error" in (p.value.get("response_args") or {}), "no error although no method fits")
        ctx.cover("none")
        return
    ctx.check("http_response" in p.value and p.value["http_response"][:5] == "PAGE:", "the user is not asked to authenticate")
    shown = p.value["http_response"][5:]
    ctx.check(any(shown == n for n, c, m in regs if c == regs[i][1]), "the page of another method is shown")
    ctx.cover("asked" if count else "default")


HARNESSES = [
    Harness("choice", choice, oidc, covers=["asked", "default", "none"], quick={"free": True}, thorough={"free": True},
            bounds="up to three methods of one to three classes, one possibly removed again, up to three requested classes, "
                   "each an arbitrary string of up to 6 characters, in any of the places a request can ask"),
    Harness("endpoint", endpoint, oidc, covers=["asked", "default", "none"], bounds="two requested classes of four, through the OIDC endpoint"),
    Harness("endpoint_oauth2", endpoint, oauth2, covers=["asked", "default", "none"], bounds="the same at the OAuth2 endpoint"),
]
