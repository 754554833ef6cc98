"""C03: PKCE."""
import hashlib

from cryptojwt.utils import b64e

from engine.harness_api import Harness
from harness.C14 import answer
from harness.common import all_tokens
from harness.common import handed_out
from harness.world import NOW
from harness.world import World

METHODS = {"S256": hashlib.sha256, "S384": hashlib.sha384, "S512": hashlib.sha512}
SUPPORTED = [["plain", "S256", "S384", "S512"], ["S256"], ["plain", "S512"]]
PAR = {"path": "pushed_authorization", "class": "oidcop.oauth2.pushed_authorization.PushedAuthorization",
       "kwargs": {"client_authn_method": ["client_secret_post"]}}


def add_pkce(conf):
    conf["add_on"] = {"pkce": {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": {"essential": False}}}
    conf["endpoint"]["pushed_authorization"] = dict(PAR)


def oidc():
    return World(tweak=add_pkce)


def oauth2():
    return World(oauth2=True, tweak=add_pkce)


def transform(method, verifier):
    """RFC 7636: the challenge that goes with a verifier."""
    if method == "plain":
        return verifier
    return b64e(METHODS[method](verifier.encode("ascii")).digest()).decode("ascii")


def demand(ctx, w, client="client_1"):
    """Where the challenge is mandatory. -> whether it is for this client"""
    essential = ctx.flag("server_essential")
    w.ctx.args["pkce"]["essential"] = essential
    own = ctx.pick("client_essential", [None, True, False])
    if own is not None:
        w.ctx.cdb[client]["pkce_essential"] = essential = own
    return essential


def send(ctx, w, req, via):
    """An authorization request, sent directly or pushed first. -> answer or None"""
    ep = w.ep("authorization")
    if via == "pushed":
        par = w.ep("pushed_authorization")
        r = ctx.call(par.parse_request, dict(req, client_secret="hemligt_for_" + req["client_id"]))
        if not r.ok or "error" in r.value:
            return None
        p = ctx.call(par.process_request, r.value)
        if not p.ok or "error" in p.value:
            return None
        args = p.value["http_response"] if "http_response" in p.value else p.value["response_args"]
        req = {"client_id": req["client_id"], "request_uri": args["request_uri"], "response_type": req["response_type"],
               "scope": req["scope"], "redirect_uri": req["redirect_uri"], "nonce": "NONCE"}
        pkce = ctx.pick("repeated", ["no", "other"])
        if pkce == "other":
            req["code_challenge"] = "another_challenge"
            req["code_challenge_method"] = "plain"
    r = ctx.call(ep.parse_request, req)
    if not r.ok or "error" in r.value:
        return None
    p = ctx.call(ep.process_request, r.value)
    if not p.ok:
        return None
    a = answer(p.value)
    return None if "error" in a else a


def areq(client="client_1", rtype="code"):
    return {"client_id": client, "redirect_uri": "https://rp%s.example.com/cb" % client[-1], "scope": "openid", "state": "STATE",
            "nonce": "NONCE", "response_type": rtype}


def redeem(ctx, w, code, client="client_1", **kw):
    ep = w.ep("token")
    req = {"grant_type": "authorization_code", "code": code, "client_id": client, "client_secret": "hemligt_for_" + client,
           "redirect_uri": "https://rp%s.example.com/cb" % client[-1]}
    req.update(kw)
    n0 = len(all_tokens(w.sm))
    r = ctx.call(ep.parse_request, req)
    if r.ok:
        r = ctx.call(ep.process_request, r.value)
    return bool(r.ok and handed_out(r.value)) or len(all_tokens(w.sm)) != n0


def requests(ctx, w):
    """Any request, with or without a challenge and a method: is there a code, and what redeems it."""
    ctx.set_time(NOW)
    essential = demand(ctx, w)
    supported = ctx.pick("supported", SUPPORTED)
    w.ctx.args["pkce"]["code_challenge_methods"] = {k: v for k, v in w.ctx.args["pkce"]["code_challenge_methods"].items() if k in supported}
    rtype = ctx.pick("response_type", ["code", "code token"] + ([] if w.oauth2 else ["code id_token"]))
    req = areq(rtype=rtype)
    given = ctx.flag("challenge_given")
    if given:
        req["code_challenge"] = challenge = ctx.str("challenge", 8, 1)
    kind = ctx.pick("method", ["absent", "known", "unknown"])
    method = "plain"
    if kind == "known":
        req["code_challenge_method"] = method = ctx.pick("which", ["plain", "S256", "S384", "S512"])
    elif kind == "unknown":
        req["code_challenge_method"] = method = ctx.str("method_name", 8, 1)
        ctx.assume(ctx.all(*[method != x for x in SUPPORTED[0]]))
    via = ctx.pick("via", ["direct", "pushed"])
    a = send(ctx, w, req, via)
    if essential and not given:
        ctx.cover("mandatory")
        ctx.check(a is None, "a code without the mandatory challenge")
        return
    if given and (kind == "unknown" or method not in supported):
        ctx.cover("unsupported")
        ctx.check(a is None, "a code for an unsupported challenge method")
        return
    if not given and kind != "absent":
        # a method without a challenge: nothing is said about it
        ctx.stop()
    ctx.check(a is not None and "code" in a, "a request with an acceptable challenge gets no code")
    with_verifier = ctx.flag("verifier_given")
    kw = {}
    if with_verifier:
        kw["code_verifier"] = verifier = ctx.str("verifier", 8, 1, lo="!", hi="~")
    claimed = ctx.pick("also_sent", ["nothing", "challenge", "method"]) if via == "direct" and not essential else "nothing"
    if claimed == "challenge":
        kw["code_challenge"] = ctx.str("token_challenge", 8)
    elif claimed == "method":
        kw["code_challenge_method"] = "plain"
    ok = redeem(ctx, w, a["code"], **kw)
    if not given:
        ctx.cover("unchallenged")
        ctx.check(ok, "a code without challenge can not be redeemed")
        return
    if not with_verifier:
        ctx.cover("no_verifier")
        ctx.check(not ok, "a challenged code is redeemed without a verifier")
        return
    right = challenge == transform(method, verifier)
    if ok:
        ctx.cover("redeemed")
        ctx.check(right, "a challenged code is redeemed with a wrong verifier")
    else:
        ctx.cover("refused")
        ctx.check(ctx.neg(right), "a challenged code is refused with its verifier")


def verifiers(ctx, w):
    """Two codes whose challenges come from arbitrary verifiers; the verifier presented is arbitrary."""
    ctx.set_time(NOW)
    n = ctx.params.get("len", 12)
    codes, secrets, methods = [], [], []
    for i, client in enumerate(["client_1", ctx.pick("second", ["client_1", "client_2"])]):
        m = ctx.pick("method%d" % i, ["plain", "S256", "S384", "S512"])
        v = ctx.str("secret%d" % i, n, 1, lo="!", hi="~")
        req = areq(client)
        req["code_challenge"] = transform(m, v)
        if m != "plain" or ctx.flag("say_plain%d" % i):
            req["code_challenge_method"] = m
        a = send(ctx, w, req, "direct")
        ctx.check(a is not None and "code" in a, "a request with an acceptable challenge gets no code")
        codes.append(a["code"])
        secrets.append(v)
        methods.append(m)
    kind = ctx.pick("presented", ["any", "challenge", "own", "other"])
    if kind == "any":
        p = ctx.str("presented_verifier", n, 1, lo="!", hi="~")
    elif kind == "challenge":
        p = transform(methods[0], secrets[0])
    elif kind == "own":
        p = secrets[0]
    else:
        p = secrets[1]
    ok = redeem(ctx, w, codes[0], code_verifier=p)
    if kind == "challenge" and methods[0] != "plain":
        # a digest is not its own preimage: nothing below that length
        ctx.check(not ok, "the challenge itself is accepted as verifier")
        return
    if ok:
        ctx.cover("redeemed")
        ctx.check(p == secrets[0], "a challenged code is redeemed with a wrong verifier")
        return
    ctx.cover("refused")
    ctx.check(p != secrets[0], "a challenged code is refused with its verifier")
    # what is refused once is refused without a verifier and in any other shape, too
    again = ctx.pick("again", ["none", "empty", "refresh", "right"])
    if again == "none":
        ctx.check(not redeem(ctx, w, codes[0]), "a challenged code is redeemed without a verifier")
    elif again == "empty":
        ctx.check(not redeem(ctx, w, codes[0], code_verifier=""), "a challenged code is redeemed with an empty verifier")
    elif again == "refresh":
        ctx.check(not redeem(ctx, w, codes[0], grant_type="refresh_token", refresh_token=codes[0]), "a challenged code works as refresh token")
    else:
        redeem(ctx, w, codes[0], code_verifier=secrets[0])


HARNESSES = [
    Harness(p + "_" + n, fn, setup, covers=cov, quick=q, thorough=t, bounds=b)
    for p, setup in (("oidc", oidc), ("oauth2", oauth2))
    for n, fn, cov, q, t, b in (
        ("requests", requests, ["mandatory", "unsupported", "unchallenged", "no_verifier", "redeemed", "refused"], {}, {},
         "challenge, verifier and method name any string <= 8 characters; mandatory or not at server and client; three sets of "
         "supported methods; three response types; sent directly or pushed"),
        ("verifiers", verifiers, ["redeemed", "refused"], {"len": 12}, {"len": 43},
         "two codes, four methods each, verifiers any string of <= len printable characters; digests are injective functions"),
    )
]
