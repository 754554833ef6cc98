"""C28: a pushed authorization request is used once, unchanged, by its client."""
import json

from engine.harness_api import Harness
from harness.C12 import signed
from harness.common import all_tokens
from harness.world import ISS
from harness.world import NOW
from harness.world import World

URI = {"client_1": "https://rp1.example.com/cb", "client_2": "https://rp2.example.com/cb"}
SECRET = {"client_1": "hemligt_for_client_1", "client_2": "hemligt_for_client_2"}
INTERNAL = ("client_secret", "request", "__verified_request", "authenticated")


def _world(oauth2, ttl):
    def tweak(conf):
        conf["endpoint"]["pushed_authorization"] = {
            "path": "par", "class": "oidcop.oauth2.pushed_authorization.PushedAuthorization",
            "kwargs": dict({"client_authn_method": ["client_secret_post", "client_secret_basic"]}, **({"ttl": ttl} if ttl else {}))}

    return World(oauth2=oauth2, tweak=tweak)


def oidc():
    return _world(False, 600)


def oauth2():
    return _world(True, 0)


def push(ctx, w, client, now, **params):
    """-> the reference, or None"""
    ctx.set_time(now)
    ep = w.ep("pushed_authorization")
    r = ctx.call(ep.parse_request, dict(params, client_id=client, client_secret=SECRET[client]))
    if not r.ok:
        return None, None
    p = ctx.call(ep.process_request, r.value)
    ctx.check(p.ok, "a refused push is not answered")
    if "error" in p.value:
        return None, None
    return p.value["http_response"]["request_uri"], p.value["http_response"]["expires_in"]


def plain(v):
    """A parameter's value, however it is represented."""
    if isinstance(v, (list, tuple)):
        return " ".join(v)
    if hasattr(v, "to_dict"):
        return v.to_dict()
    return v


def the_same(ctx, req, want):
    """The request that is acted upon has exactly the pushed parameters."""
    got = {k: v for k, v in req.items() if k not in INTERNAL}
    ctx.check(set(got) == set(want), "parameters are missing from what was pushed, or were added to it")
    for k, v in want.items():
        ctx.check(ctx.eq(plain(got[k]), v), "a parameter is not the one that was pushed")


def use(ctx, w, client, ref, now, **outer):
    ctx.set_time(now)
    req = {"client_id": client, "redirect_uri": URI[client], "scope": "openid", "response_type": "code", "request_uri": ref}
    req.update(outer)
    return ctx.call(w.ep("authorization").parse_request, req)


def unchanged(ctx, w):
    """Any parameters pushed, any others in the request that carries the reference."""
    client = ctx.pick("client", ["client_1", "client_2"])
    how = ctx.pick("how", ["plain", "object"])
    want = {"client_id": client, "redirect_uri": URI[client], "response_type": ctx.pick("type", ["code", "code token"])}
    pushed = {}
    if ctx.flag("optional"):
        pushed.update({"prompt": "consent", "max_age": 3600, "acr_values": "a b",
                       "claims": {"userinfo": {"email": {"essential": True}}}})
    if w.oauth2:
        pushed = {}
    concrete = how == "object"
    text = lambda name: ctx.pick(name, ["x"]) if concrete else ctx.str(name, 8, 1)
    want.update({"scope": "openid " + ctx.pick("scope", ["email", "email profile"]), "state": text("state"), "nonce": text("nonce"),
                 "code_challenge": text("challenge")})
    want.update(pushed)
    send = dict(want)
    if "claims" in send:
        send["claims"] = json.dumps(send["claims"])
    if how == "object":
        inner = dict(want, iss=client, aud=ISS)
        send = {"request": signed(ctx, w, client + ":RS256", inner)}
        want = inner
    del want["client_id"]
    ref, _ = push(ctx, w, client, NOW, **{k: v for k, v in send.items() if k != "client_id"})
    ctx.check(ref is not None, "a good request can not be pushed")
    outer = {"state": ctx.str("other_state", 8, 1), "nonce": "OTHER", "scope": "openid", "code_challenge_method": "plain", "login_hint": "x"}
    r = use(ctx, w, client, ref, NOW, **outer)
    ctx.check(r.ok and "error" not in r.value, "a pushed request can not be used")
    the_same(ctx, r.value, dict(want, client_id=client))
    p = ctx.call(w.ep("authorization").process_request, r.value)
    ctx.check(p.ok and p.value["response_args"]["state"] == want["state"] and p.value["return_uri"] == URI[client],
              "the answer is not the one to what was pushed")
    g = w.sm[p.value["session_id"]]
    ctx.check(g.authorization_request["nonce"] == want["nonce"], "the session is about another request")
    ctx.cover(how)


def history(ctx, w):
    """Two pushes and three uses, by any client, at any time."""
    ttl = 600 if not w.oauth2 else 3600
    now = ctx.int("now", 1, 1 << 40)
    refs, owner, made = [], [], []
    # the same request may be pushed again
    again = ctx.flag("again")
    state = ["S0", "S0" if again else "S1"]
    for i in range(2):
        c = ctx.pick("pusher%d" % i, ["client_1", "client_2"]) if i else "client_1"
        ref, exp = push(ctx, w, c, now, redirect_uri=URI[c], scope="openid", response_type="code", state=state[i], nonce="N")
        ctx.check(ref is not None and exp == ttl, "a good request can not be pushed, or another life time is told")
        refs.append(ref)
        owner.append(c)
        made.append(now)
        now = now + ctx.int("wait%d" % i, 0, 1 << 20)
    ctx.check(refs[0] != refs[1], "two pushes get the same reference")
    used = set()
    for i in range(ctx.params.get("uses", 3)):
        which = ctx.pick("which%d" % i, [0, 1, 2])
        c = ctx.pick("user%d" % i, ["client_1", "client_2"])
        ref = refs[which] if which < 2 else "urn:uuid:" + ctx.str("ref%d" % i, 12)
        if which == 2:
            ctx.assume(ctx.all(*[ref != x for x in refs]))
        n = len(all_tokens(w.sm))
        r = use(ctx, w, c, ref, now)
        good = r.ok and "error" not in r.value
        if good:
            ctx.check(which < 2, "an unknown reference is accepted")
            ctx.check(owner[which] == c, "a reference is used by another client")
            ctx.check(which not in used, "a reference is used twice")
            ctx.check(now <= made[which] + ttl, "a reference is used after its life time")
            ctx.check(r.value["state"] == state[which] and r.value["client_id"] == c, "a reference stands for another request")
            used.add(which)
            ctx.cover("used")
        else:
            ctx.check(len(all_tokens(w.sm)) == n, "a refused reference creates tokens")
            if which < 2:
                live = ctx.all(owner[which] == c, which not in used, now <= made[which] + ttl)
                ctx.check(ctx.neg(live), "a good reference is refused")
            ctx.cover("refused")
        now = now + ctx.int("then%d" % i, 0, 1 << 20)


def faults(ctx, w):
    """What would not be accepted directly is not accepted by way of a push."""
    fault = ctx.pick("fault", ["", "uri", "type", "client", "reference", "scope", "mode"] + ([] if w.oauth2 else ["nonce"]))
    good = {"redirect_uri": URI["client_1"], "scope": "openid", "response_type": "code", "state": "S", "nonce": "N"}
    params = dict(good)
    if fault == "uri":
        params["redirect_uri"] = ctx.str("uri", 30, 1)
        ctx.assume(ctx.all(params["redirect_uri"] != URI["client_1"], ctx.neg(ctx.isin("?", params["redirect_uri"]))))
    elif fault == "type":
        w.ctx.cdb["client_1"]["response_types"] = ["code"]
        params["response_type"] = "code token"
    elif fault == "client":
        params["request"] = signed(ctx, w, "client_1:RS256", dict(good, client_id="client_2", iss="client_1"))
    elif fault == "reference":
        first, _ = push(ctx, w, "client_1", NOW, **good)
        params["request_uri"] = ctx.pick("reference", [first, "https://rp1.example.com/request"])
    elif fault == "scope":
        params["scope"] = "email"
    elif fault == "nonce":
        params["response_type"] = "id_token"
        del params["nonce"]
    elif fault == "mode":
        params["response_mode"] = ctx.str("mode", 8, 1)
        ctx.assume(ctx.neg(ctx.isin(params["response_mode"], ["query", "fragment", "form_post"])))
    bad = fault != "" and not (w.oauth2 and fault == "scope")
    before = len(w.ctx.par_db)
    ref, _ = push(ctx, w, "client_1", NOW, **params)
    if ref is None:
        ctx.check(bad, "a good request can not be pushed")
        ctx.check(len(w.ctx.par_db) == before, "a refused push leaves something behind")
        ctx.cover("refused")
        return
    n = len(all_tokens(w.sm))
    r = use(ctx, w, "client_1", ref, NOW, nonce="OUTER")
    if r.ok and "error" not in r.value:
        ctx.check(not bad, "a request that must be refused is accepted by way of a push")
        p = ctx.call(w.ep("authorization").process_request, r.value)
        ctx.check(p.ok and "code" in p.value["response_args"], "the pushed request is not answered")
        ctx.cover("answered")
    else:
        ctx.check(bad, "a good request is refused")
        ctx.check(len(all_tokens(w.sm)) == n, "a refused request creates tokens")


_B = "up to 8 characters for each string; "
HARNESSES = [
    Harness("unchanged", unchanged, oidc, covers=["plain", "object"], bounds="arbitrary state, nonce and challenge (8 characters), eight sets of the other parameters"),
    Harness("unchanged_oauth2", unchanged, oauth2, covers=["plain"], bounds="the same at the OAuth 2.0 endpoint"),
    Harness("history", history, oidc, covers=["used", "refused"], quick={"uses": 2}, thorough={"uses": 3},
            bounds="two pushes and two (thorough: three) uses, either client, arbitrary times and unknown references"),
    Harness("history_oauth2", history, oauth2, covers=["used", "refused"], quick={"uses": 2}, thorough={"uses": 3}, bounds="the same at the OAuth 2.0 endpoint"),
    Harness("faults", faults, oidc, covers=["answered", "refused"], bounds="seven kinds of faulty requests"),
    Harness("faults_oauth2", faults, oauth2, covers=["answered", "refused"], bounds="the same at the OAuth 2.0 endpoint"),
]
