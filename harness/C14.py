"""C14: refused authorization requests hand out nothing."""
from engine.harness_api import Harness
from harness.common import all_tokens
from harness import C28
from harness.C12 import signed
from harness.C28 import push
from harness.world import ISS
from harness.world import NOW
from harness.world import oauth2_world
from harness.world import oidc_world

SECRETS = ("code", "access_token", "id_token", "refresh_token")
WORDS = ["code", "token", "id_token", "none"]
REGISTERED = [None, [], ["code"], ["code", "id_token"], ["id_token token", "code token"], ["none", "code id_token token"]]
MODES = ["query", "fragment", "form_post"]
OWN = "https://rp1.example.com/cb"


def grants(sm):
    return [v for v in sm.db.values() if hasattr(v, "issued_token")]


def answer(v):
    """What leaves the provider: the parameters of the answer, wherever they are put."""
    out = {}
    for part in (v, v.get("response_args") or {}):
        for k in part.keys():
            out[k] = part[k]
    if "response_msg" in v:
        for name in SECRETS + ("error",):
            if 'name="%s"' % name in v["response_msg"]:
                out[name] = True
    return out


def submit(ctx, w, req):
    """Parse and process a request as the web application does. -> (outcome, answer)"""
    ep = w.ep("authorization")
    r = ctx.call(ep.parse_request, req)
    if not r.ok:
        return "exc", {}
    if "error" in r.value:
        return "error", answer(r.value)
    p = ctx.call(ep.process_request, r.value)
    if not p.ok:
        return "exc", {}
    a = answer(p.value)
    return ("error" if "error" in a else "answer"), a


def known_type(ctx, words, registered):
    """The specification: the set of words is one of the registered combinations."""
    combos = registered or ["code"]
    alts = []
    for c in combos:
        c = c.split(" ")
        alts.append(ctx.all(*[ctx.any(*[x == y for y in c]) for x in words],
                            *[ctx.any(*[x == y for x in words]) for y in c]))
    return ctx.any(*alts)


def nothing(ctx, w, kind, a, before):
    ctx.check(kind != "answer", "a request that must be refused is answered")
    ctx.check(not any(k in a for k in SECRETS), "an error answer carries a code or token")
    ctx.check((len(grants(w.sm)), len(all_tokens(w.sm))) == before, "a refused request leaves a grant or token behind")


def combos(ctx, w):
    """Any response type, mode, redirect URI, client; scope and nonce present or not."""
    registered = ctx.pick("registered", REGISTERED)
    cinfo = w.ctx.cdb["client_1"]
    if registered is None:
        del cinfo["response_types"]
    else:
        cinfo["response_types"] = registered
    n = ctx.pick("words", [1, 2, 3])
    if n == 3:
        words = list(ctx.pick("three", [("code", "token", "id_token"), ("id_token", "code", "token"), ("code", "none", "id_token")]))
    else:
        words = [ctx.pick("first", WORDS)]
        if n == 2:
            second = ctx.pick("second", WORDS + [""])
            if not second:
                # a word nobody knows (words are put into sets)
                second = ctx.str("other", 8, 1)
                ctx.assume(ctx.all(*[second != x for x in WORDS], ctx.neg(ctx.isin(" ", second))))
            ctx.assume(second != words[0])
            words.append(second)
    fault = ctx.pick("fault", ["", "client", "uri", "fragment", "no_uri", "scope", "nonce"])
    req = {"client_id": "client_1", "redirect_uri": OWN, "scope": "openid", "state": "STATE", "nonce": "NONCE", "response_type": words}
    if fault == "client":
        req["client_id"] = ctx.str("client_id", 8)
        ctx.assume(ctx.neg(ctx.isin(req["client_id"], ["client_1", "client_2"])))
    elif fault == "uri":
        req["redirect_uri"] = ctx.str("uri", 30, 1)
        ctx.assume(req["redirect_uri"] != OWN)
        ctx.assume(ctx.neg(ctx.isin("?", req["redirect_uri"])))
    elif fault == "fragment":
        req["redirect_uri"] = OWN + "#frag"
    elif fault == "no_uri":
        del req["redirect_uri"]
        cinfo["redirect_uris"] = [(OWN, None), (OWN + "2", None)]
    elif fault == "scope":
        req["scope"] = ctx.pick("scope", ["profile", "email offline_access"])
    elif fault == "nonce":
        del req["nonce"]
    mode = None
    if not fault and ctx.flag("with_mode"):
        mode = req["response_mode"] = ctx.str("mode", 10, 1)
    good = known_type(ctx, words, registered)
    if fault in ("client", "uri", "fragment", "no_uri") or (fault == "scope" and not w.oauth2):
        good = False
    if fault == "nonce" and not w.oauth2:
        good = ctx.all(good, ctx.neg(ctx.any(*[x == "id_token" for x in words])))
    if mode is not None:
        good = ctx.all(good, ctx.any(*[mode == m for m in MODES]))
    if w.oauth2:
        # the plain OAuth endpoint has no ID tokens
        ctx.assume(ctx.neg(ctx.any(*[x == "id_token" for x in words])))
    before = len(grants(w.sm)), len(all_tokens(w.sm))
    kind, a = submit(ctx, w, req)
    if kind == "answer":
        ctx.check(good, "a request that must be refused is answered")
        ctx.cover("answered")
        return
    ctx.check(not any(k in a for k in SECRETS), "an error answer carries a code or token")
    if good:
        # the one combination that is refused later: the mode does not go with the response type
        ctx.check(mode is not None and not mode == "form_post", "a good request is refused")
        ctx.cover("mode does not fit")
    else:
        nothing(ctx, w, kind, a, before)
        ctx.cover("refused")


class Kept:
    """Where a client keeps its request."""
    status_code = 200

    def __init__(self, text):
        self.text = text

    def get(self, url, *args, **kwargs):
        return self


def inside(ctx, w):
    """The request proper comes in a request object or a pushed request that names another client."""
    w.ctx.cdb["client_1"]["response_types"] = ctx.pick("outer_registered", [["code"], ["token"]])
    w.ctx.cdb["client_2"]["response_types"] = ctx.pick("inner_registered", [["code"], ["token"]])
    inner = {"client_id": ctx.pick("inner", ["client_1", "client_2", "nobody"]), "scope": "openid", "state": "STATE", "nonce": "NONCE",
             "response_type": ctx.pick("type", ["code", "token"]), "redirect_uri": ctx.pick("uri", [OWN, "https://rp2.example.com/cb"])}
    # the OAuth 2.0 endpoint does not look at request objects
    how = ctx.pick("how", ["pushed"] if w.oauth2 else ["object", "pushed", "reference"])
    req = dict(inner, client_id="client_1")
    if ctx.flag("outside_differs"):
        # and what is outside would be answered
        req.update({"response_type": "code" if "code" in w.ctx.cdb["client_1"]["response_types"] else "token", "redirect_uri": OWN})
    if how == "object":
        req["request"] = signed(ctx, w, "client_1:RS256", dict(inner, iss="client_1", aud=ISS))
    elif how == "reference":
        req["request_uri"] = "https://rp1.example.com/request"
        w.ctx.httpc = Kept(signed(ctx, w, "client_1:RS256", dict(inner, iss="client_1", aud=ISS)))
    else:
        pusher = inner["client_id"]
        ctx.assume(pusher in w.ctx.cdb)
        ref, _ = push(ctx, w, pusher, NOW, **{k: v for k, v in inner.items() if k != "client_id"})
        if ref is None:
            # refused already when it was pushed
            ctx.check((len(grants(w.sm)), len(all_tokens(w.sm))) == (0, 0), "a refused request leaves a grant or token behind")
            ctx.cover("refused")
            return
        req["request_uri"] = ref
    reg = w.ctx.cdb[inner["client_id"]]["response_types"] if inner["client_id"] in w.ctx.cdb else []
    good = inner["client_id"] == "client_1" and inner["response_type"] in reg and inner["redirect_uri"] == OWN
    before = len(grants(w.sm)), len(all_tokens(w.sm))
    kind, a = submit(ctx, w, req)
    if good:
        ctx.check(kind == "answer", "a good request is refused")
        ctx.cover("answered")
    else:
        nothing(ctx, w, kind, a, before)
        ctx.cover("refused")


HARNESSES = [
    Harness("oidc", combos, oidc_world, covers=["answered", "refused", "mode does not fit"],
            bounds="up to three response type words (one arbitrary up to 8 characters), six registrations, arbitrary mode up to 10, client and URI strings"),
    Harness("oauth2", combos, oauth2_world, covers=["answered", "refused", "mode does not fit"], bounds="the same at the OAuth 2.0 endpoint"),
    Harness("inside_oidc", inside, C28.oidc, covers=["answered", "refused"], bounds="request object by value or by reference, or pushed request, naming any client, what is outside the same or fine"),
    Harness("inside_oauth2", inside, C28.oauth2, covers=["answered", "refused"], bounds="the same at the OAuth 2.0 endpoint"),
]
