"""C40: requests about a particular user are answered for nobody else."""
import json
from urllib.parse import parse_qs

from engine.harness_api import Harness
from harness import C17
from harness.C12 import signed
from harness.common import all_tokens
from harness.world import ISS
from harness.world import NOW
from harness.world import World

RT = ["code", "id_token", "code id_token", "id_token token", "code id_token token"]
URI = "https://rp1.example.com/second"


def world():
    w = World()
    w.ctx.cdb["client_1"]["redirect_uris"].append((URI, None))
    w.method = w.ctx.authn_broker["anon"]["method"]
    return w


def hint_for(ctx, w, kind, sub_type, subs):
    """(id_token_hint, its subject or None, whether the provider can tell who it is about)"""
    if not kind:
        return None, None
    if kind in ("diana", "babs", "diana@client_2"):
        user, _, cid = kind.partition("@")
        sid = w.session(cid or "client_1", user, sub_type=sub_type, nonce="NONCE")
        g = w.authorized(sid)
        if subs:
            g.sub = ctx.str("old_sub", 12, 1)
        tok = w.mint(sid, "id_token")
        return tok.value, g.sub
    sid = w.session("client_1", "diana", sub_type=sub_type, nonce="NONCE")
    claims = {"iss": ISS, "sub": w.sm[sid].sub, "aud": ["client_1"], "iat": NOW, "exp": NOW + 3600, "nonce": "NONCE"}
    # a provider may have clients that get unsigned ID tokens; a hint can only narrow who is answered
    return signed(ctx, w, kind, claims), claims["sub"] if kind == "none" else None


def delivered(ctx, ep, request, p):
    """What reaches the client: (page or arguments, address, whether in the fragment)"""
    d = ctx.call(ep.do_response, request=request, **p.value)
    ctx.check(d.ok, "the answer cannot be delivered")
    v = d.value["response"]
    if "<form" in v or "<html" in v:
        return v, None, False
    for c in "#?":
        where, sep, args = v.partition(c)
        if sep:
            return {k: x[0] for k, x in parse_qs(args).items()}, where, c == "#"
    return {}, v, False


def requests(ctx, w):
    part = ctx.pick("part", ["hint", "claims", "both", "way"])
    user = ctx.pick("user", ["diana", "babs"])
    w.method.user = user
    sub_type = ctx.pick("sub_type", ["public", "pairwise", "ephemeral"] if part in ("hint", "claims") else ["public"])
    if sub_type != "public":
        w.ctx.cdb["client_1"]["subject_type"] = sub_type
        w.ctx.cdb["client_2"]["subject_type"] = sub_type
    kinds = {"hint": ["diana", "babs", "diana@client_2", "client_2:RS256", "guess:HS256", "none"], "claims": [None],
             "both": ["diana", "babs"], "way": ["diana", None]}[part]
    kind = ctx.pick("id_token_hint", kinds)
    hint, hint_sub = hint_for(ctx, w, kind, sub_type, ctx.params["subs"] and part == "hint")
    want = ctx.pick("claims", {"hint": [None], "way": ["value", "none"], "both": ["value"]}.get(part, ["value", "values", "essential", "null", "userinfo"]))
    req = {"client_id": "client_1", "redirect_uri": URI, "scope": "openid", "state": "STATE", "nonce": "NONCE",
           "response_type": ctx.pick("response_type", RT if part == "way" else ["code", "id_token token"])}
    mode = ctx.pick("response_mode", ["", "form_post", "query" if req["response_type"] == "code" else "fragment"]) if part == "way" else ""
    if mode:
        req["response_mode"] = mode
    if part == "way" and ctx.flag("prompt_none"):
        req["prompt"] = "none"
    if hint:
        req["id_token_hint"] = hint
    # the subject the user has at this client
    here = w.session("client_1", user, sub_type=sub_type, nonce="NONCE")
    asked = None
    if want in ("value", "values", "essential"):
        # any string near nothing in particular, or the user's own identifier
        one = w.sm[here].sub if sub_type == "ephemeral" or ctx.flag("own") else ctx.str("sub", 70, 1)
        asked = [one]
        if want == "values":
            asked.append(ctx.str("sub2", 70, 1) if sub_type != "ephemeral" else "somebody")
        spec = {"values": asked} if want == "values" else {"value": one}
        if want == "essential":
            spec["essential"] = True
        req["claims"] = {"id_token": {"sub": spec}}
    elif want == "null":
        req["claims"] = {"id_token": {"sub": None}}
    elif want == "userinfo":
        req["claims"] = {"userinfo": {"sub": None}, "id_token": {"sub": {"essential": True}}}
    way = ctx.pick("way", ["direct", "after login", "request object"] if part == "way" else ["direct", "after login"])
    ep = w.ep("authorization")
    if way == "request object":
        w.ctx.cdb["client_1"]["request_object_signing_alg"] = "RS256"
        ro = signed(ctx, w, "client_1:RS256", dict(req, iss="client_1", aud=ISS))
        r = ctx.call(ep.parse_request, {"client_id": "client_1", "redirect_uri": URI, "scope": "openid", "response_type": req["response_type"],
                                        "state": "STATE", "nonce": "NONCE", "request": ro})
    else:
        r = ctx.call(ep.parse_request, dict(req))
    n0 = len(all_tokens(w.sm))
    if kind in ("client_2:RS256", "guess:HS256"):
        if not r.ok or "error" in r.value:
            ctx.cover("a hint this provider did not make is refused")
            return
        ctx.check(False, "a hint this provider did not make is taken for one")
    ctx.check(r.ok and "error" not in r.value, "a well-formed request is refused")
    request = r.value
    if way == "after login":
        # the login page carries the request; the application parses it again and goes on
        created = ctx.call(w.sm.create_session, w.sm.get_authentication_event(here), request, user, client_id="client_1",
                           **ep._subject_parameters("client_1"))
        ctx.check(created.ok, "no session after the login")
        p = ctx.call(ep.authz_part2, request=request, session_id=created.value)
        sid = created.value
    else:
        request.to_urlencoded = lambda *a, **k: ""  # only for the login page, which nobody sees here
        p = ctx.call(ep.process_request, request)
        sid = None
    ctx.check(p.ok, "no answer at all")
    got, where, fragment = delivered(ctx, ep, request, p)
    # any identifier this client knows the user by
    uid = [g for k, g in w.sm.db.items() if k.startswith(w.sm.session_key(user, "client_1", ""))]
    subs = [g.sub for g in uid if hasattr(g, "issued_token")]
    new = subs[-1]
    right = ctx.all(True if hint_sub is None else ctx.isin(hint_sub, subs), True if asked is None else ctx.isin(new, asked))
    if isinstance(got, str):
        answered, refused = 'name="code"' in got or 'name="id_token"' in got, 'value="login_required"' in got
        ctx.check('action="%s"' % URI in got and 'name="state" value="STATE"' in got, "the answer does not get back to where it was asked for")
    else:
        answered, refused = any(k in got for k in ("code", "id_token", "access_token")), got.get("error") == "login_required"
        ctx.check(where == URI, "the answer goes elsewhere")
        ctx.check(got.get("state") == "STATE", "the state is lost")
        ctx.check(fragment == (req["response_type"] != "code"), "the answer is not where the client looks for it")
    ctx.check(answered != refused, "neither an answer nor a refusal")
    if answered:
        ctx.cover("answered")
        ctx.check(right, "a request about a particular user is answered for another one")
    else:
        ctx.cover("refused")
        ctx.check(ctx.neg(right), "a request about the very user who is logged in is refused")
        ctx.check(len(all_tokens(w.sm)) == n0, "tokens come into being for a request that is refused")


def login_hints(ctx, w):
    """A user with a session, a request with any login hint that stands for anybody."""
    ep = w.ep("authorization")
    user = ctx.pick("user", ["diana", "babs"])
    sid = w.session("client_1", user=user, nonce="NONCE")
    w.authorized(sid)
    hint = ctx.str("hint", 12, 1)
    ctx.assume(ctx.neg(ctx.isin(" ", hint)))
    table = [("known", user), ("other", ctx.str("somebody", 12, 1))]
    asked = []

    def lookup(h):
        asked.append(h)
        for k, u in table:
            if h == k:
                return u
        return "nobody"

    w.ctx.login_hint_lookup = lookup
    req = C17.area(w, login_hint=hint)
    prompt = ctx.pick("prompt", ["", "none"])
    if prompt:
        req["prompt"] = prompt
    if ctx.flag("another_request"):
        req["state"] = "ANOTHER"
    r = ctx.call(ep.parse_request, req)
    ctx.check(r.ok and "error" not in r.value, "a well-formed request is refused")
    cookies = [{"value": json.dumps({"sid": sid, "state": "STATE"}), "type": "", "timestamp": NOW}]
    w.ctx.cookie_handler.parse_cookie = lambda name, c: c
    n0 = len(all_tokens(w.sm))
    r.value.to_urlencoded = lambda *a, **k: ""  # for the login page
    p = ctx.call(ep.process_request, r.value, http_info={"cookie": cookies})
    kind = C17.outcome(ctx, p)
    right = ctx.any(hint == "known", ctx.all(hint == "other", table[1][1] == user))
    if kind == "code":
        ctx.cover("answered")
        ctx.check(right, "a request about a particular user is answered for another one")
        ctx.check(w.sm.decrypt_session_id(p.value["session_id"])[0] == user, "answered for another user")
    else:
        ctx.cover("not answered")
        ctx.check(kind == ("error:login_required" if prompt else "page"), "neither an answer, a login page nor a refusal")
        ctx.check(ctx.neg(right), "a request about the very user who is logged in is not answered")
        ctx.check(len(all_tokens(w.sm)) == n0, "tokens come into being for a request that is refused")


HARNESSES = [
    Harness("requests", requests, world, covers=["answered", "refused", "a hint this provider did not make is refused"],
            quick={"subs": True}, thorough={"subs": True},
            bounds="two users, two clients, three subject types; hints from this provider (for any earlier subject identifier), other clients, forged or unsigned; "
                   "any requested subject value(s); response types and modes; direct, after the login page, by request object"),
    Harness("login_hints", login_hints, C17.oidc, covers=["answered", "not answered"],
            bounds="any login hint, a lookup that may name anybody; the user has a session; prompt none or not"),
]
