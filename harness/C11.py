"""C11: a request is authenticated only by the right live secret."""
import base64
from urllib.parse import quote_plus
from urllib.parse import unquote_plus

from engine.harness_api import Harness
from harness.world import World

BIG = 1 << 40
ALPHA = "ab:%+ 3A/"
METHODS = [["client_secret_basic"], ["client_secret_post"], ["client_secret_basic", "client_secret_post"],
           ["client_secret_post", "client_secret_basic"], ["private_key_jwt"], ["client_secret_jwt", "client_secret_post"]]
CLIENTS = ["client_1", "client_2"]


def _world(oauth2):
    w = World(oauth2=oauth2)
    w.methods = {m.tag: m for m in w.ep("token").client_authn_method}
    return w


def oidc():
    return _world(False)


def oauth2():
    return _world(True)


def database(ctx, w, secrets, full=True):
    """Two clients with arbitrary secrets and expiry times, or none."""
    live = {}
    now = ctx.int("now", 1, BIG)
    for c in CLIENTS:
        info = w.ctx.cdb[c]
        kind = ctx.pick("registered_" + c, ["secret", "none"]) if full and c == "client_2" else "secret"
        if kind == "none":
            del info["client_secret"]
        else:
            info["client_secret"] = secrets[c]
        expires = ctx.pick("expires_" + c, ["", "at"]) if full or c == "client_1" else ""
        if expires:
            info["client_secret_expires_at"] = ctx.int("at_" + c, 0, BIG)
            # as a client that registered itself has it
            info["client_id_issued_at"] = ctx.int("issued_" + c, 0, BIG)
            live[c] = ctx.any(info["client_secret_expires_at"] == 0, now <= info["client_secret_expires_at"])
        else:
            live[c] = True
    ctx.set_time(now)
    return live


def attempt(ctx, w, methods, body, header):
    ep = w.ep("token")
    ep.client_authn_method = [w.methods[m] for m in methods]
    req = {"grant_type": "authorization_code", "code": "x", "redirect_uri": "y"}
    req.update(body)
    msg = ep.request_cls(**req)
    r = ctx.call(ep.client_authentication, msg, {"headers": {"authorization": header}} if header is not None else {})
    if r.ok and r.value and r.value.get("client_id"):
        return r.value["client_id"]
    return None


def proves(ctx, w, cid, presented):
    """Which client a pair of identifier and secret is the right one of."""
    return ctx.any(*[ctx.all(i == cid, s == w.ctx.cdb[cid]["client_secret"]) for i, s in presented]) if (
        presented and "client_secret" in w.ctx.cdb[cid]) else False


def judge(ctx, w, cid, presented, live, complete):
    if cid is not None:
        ctx.check(ctx.any(*[cid == c for c in CLIENTS]), "an unknown client is authenticated")
        for c in CLIENTS:
            if cid == c:
                ctx.check(proves(ctx, w, c, presented), "a request is authenticated without the right secret")
                ctx.check(live[c], "an expired secret authenticates")
        ctx.cover("authenticated")
    else:
        if complete:
            for c in CLIENTS:
                ctx.check(ctx.neg(ctx.all(proves(ctx, w, c, presented), live[c])), "the right secret is refused")
        ctx.cover("refused")


def body(ctx, w):
    """The secret in the body."""
    live = database(ctx, w, {c: ctx.str("secret_of_" + c, 8, 1) for c in CLIENTS})
    methods = ctx.pick("methods", METHODS)
    b = {}
    if ctx.flag("with_id"):
        b["client_id"] = ctx.str("client_id", 10, 1)
    if ctx.flag("with_secret"):
        b["client_secret"] = ctx.str("client_secret", 8, 1)
    header = ctx.pick("header", [None, "Basic", "Basic ", "Basic !!", "Bearer x", "Basic " + base64.b64encode(b"client_1").decode(),
                                 "Basic " + base64.b64encode(b"client_2:a:b").decode()])
    cid = attempt(ctx, w, methods, b, header)
    allowed = "client_secret_post" in methods
    presented = [(b["client_id"], b["client_secret"])] if allowed and len(b) == 2 else []
    judge(ctx, w, cid, presented, live, True)


def basic(ctx, w):
    """HTTP Basic, the credentials encoded as they should be, any characters in them; the body may name any client."""
    n = ctx.params.get("chars", 2)
    live = database(ctx, w, {c: ctx.chars("secret_of_" + c, n, 1, ALPHA) for c in CLIENTS}, False)
    methods = ctx.pick("methods", METHODS[:4])
    who = ctx.pick("client", CLIENTS + ["nobody"])
    what = ctx.chars("presented", n, 0, ALPHA)
    header = "Basic " + base64.b64encode((quote_plus(who) + ":" + quote_plus(what)).encode()).decode()
    b = ctx.pick("body", [{}, {"client_id": "client_1"}, {"client_id": "client_2"}, {"client_id": "client_2", "client_secret": "guess"}])
    cid = attempt(ctx, w, methods, b, header)
    presented = [(who, what)] if "client_secret_basic" in methods else []
    if "client_secret_post" in methods and len(b) == 2:
        presented.append((b["client_id"], b["client_secret"]))
    judge(ctx, w, cid, presented, live, True)


def raw(ctx, w):
    """Anything at all in the header."""
    n = ctx.params.get("chars", 3)
    secret = {"client_1": ctx.pick("secret_of_client_1", ["a:", "a", "a b", "%3A"]), "client_2": "b"}
    live = database(ctx, w, secret, False)
    text = ctx.pick("prefix", ["client_1", "client_1:", "client_2:"]) + ctx.chars("rest", n, 0, ALPHA)
    header = "Basic " + base64.b64encode(text.encode()).decode()
    cid = attempt(ctx, w, ["client_secret_basic"], {}, header)
    i, _, s = text.partition(":")
    judge(ctx, w, cid, [(unquote_plus(i), unquote_plus(s))], live, False)


HARNESSES = [
    Harness("body", body, oidc, covers=["authenticated", "refused"], bounds="arbitrary identifier (10) and secrets (8 characters), expiry and clock; six sets of methods; seven headers"),
    Harness("body_oauth2", body, oauth2, covers=["authenticated", "refused"], bounds="the same at the OAuth 2.0 token endpoint"),
    Harness("basic", basic, oidc, covers=["authenticated", "refused"], quick={"chars": 2}, thorough={"chars": 3},
            bounds="secrets of up to 2 (thorough: 3) characters including every separator, six sets of methods, four bodies"),
    Harness("raw", raw, oidc, covers=["authenticated", "refused"], quick={"chars": 3}, thorough={"chars": 4},
            bounds="up to 3 (thorough: 4) arbitrary characters in the decoded header"),
]
