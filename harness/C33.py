"""C33: granted scopes stay within what was requested and what the client may have."""
from cryptojwt.jws.jws import factory

from engine.harness_api import Harness
from harness.C04 import present
from harness.C04 import rreq
from harness.C14 import answer
from harness.common import all_tokens
from harness.world import NOW
from harness.world import oauth2_world
from harness.world import oidc_world

OWN = "https://rp1.example.com/cb"
WORDS = ["profile", "email", "address", "phone", "offline_access", "extra"]
CLAIMS = {"profile": ["name", "nickname", "given_name", "family_name"], "email": ["email", "email_verified"],
          "address": ["address"], "phone": ["phone_number"], "extra": ["org"], "openid": [], "offline_access": []}
RECORD = {"name": "Diana Krall", "given_name": "Diana", "family_name": "Krall", "nickname": "Dina", "email": "diana@example.org",
          "email_verified": False, "address": {"locality": "Umea"}, "phone_number": "+46907865000", "org": "Example"}
SETS = [["openid"], ["openid", "profile"], ["openid", "email", "offline_access"], ["profile", "email", "phone"],
        ["openid", "profile", "email", "address", "phone", "offline_access"], ["openid", "extra", "address", "offline_access"]]


POLICIES = ([(k, None, None) for k in [None] + SETS] + [(k, SETS[i], None) for k in (None, SETS[4], SETS[0]) for i in (1, 3)]
            + [(None, [], None)] + [(k, None, SETS[i]) for k in (None, SETS[0]) for i in (2, 3, 5)] + [(None, SETS[1], SETS[5]), (SETS[3], SETS[2], SETS[3])])


def policy(ctx, w):
    """The scopes the server allows and what the client has of its own. -> the allowed scopes of client_1"""
    handler = w.ctx.scopes_handler
    allowed = list(handler.allowed_scopes)
    server, own, scopes = POLICIES[ctx.pick("policy", list(range(len(POLICIES))))]
    cinfo = w.ctx.cdb["client_1"]
    if server is not None:
        allowed = handler.allowed_scopes = list(server)
    mapping = None
    if scopes is not None:
        mapping = cinfo["scopes_to_claims"] = {k: list(CLAIMS[k]) for k in scopes}
        allowed = list(mapping)
    if own is not None:
        allowed = list(own)
        cinfo["allowed_scopes"] = list(own)
    w.ctx.cdb["client_2"]["allowed_scopes"] = list(WORDS) + ["openid"]
    return allowed, mapping


def requested(ctx, w):
    first = [] if w.oauth2 and ctx.flag("no_openid") else ["openid"]
    words = []
    for i in range(ctx.pick("n", [0, 1, 2, 3][: ctx.params.get("n", 2) + 1])):
        left = [x for x in WORDS if not words or WORDS.index(x) > WORDS.index(words[-1])]
        if not left:
            ctx.stop()
        words.append(ctx.pick("word%d" % i, left))
    if words and first and ctx.flag("openid_last"):
        return words + first
    return first + words


def ask(ctx, w, words, rtype):
    ctx.set_time(NOW)
    req = {"client_id": "client_1", "redirect_uri": OWN, "state": "STATE", "nonce": "NONCE", "response_type": rtype.split(" ")}
    if words:
        req["scope"] = " ".join(words)
    if "offline_access" in words:
        req["prompt"] = "consent"
    ep = w.ep("authorization")
    r = ctx.call(ep.parse_request, req)
    if not r.ok or "error" in r.value:
        return None
    p = ctx.call(ep.process_request, r.value)
    if not p.ok:
        return None
    a = answer(p.value)
    return None if "error" in a else a


def listed(v):
    return v.split(" ") if isinstance(v, str) else list(v)


def stays_within(ctx, w, words):
    for v in [v for v in w.sm.db.values() if hasattr(v, "issued_token")]:
        ctx.check(all(x in words for x in v.scope), "a grant has a scope that was not requested")
    for t in all_tokens(w.sm):
        ctx.check(all(x in words for x in t.scope or []), "a token has a scope that was not requested")


def endpoint(ctx, w):
    """Every requested set, every policy: what is granted, reported and released."""
    w.ctx.userinfo.db["diana"] = dict(RECORD)
    for name in ("userinfo", "introspection"):
        if not (w.oauth2 and name == "userinfo"):
            w.ep(name).kwargs["add_claims_by_scope"] = True
    allowed, mapping = policy(ctx, w)
    deny = ctx.flag("deny")
    if deny:
        w.ctx.conf["capabilities"]["deny_unknown_scopes"] = True
    words = requested(ctx, w)
    if w.oauth2:
        rtype = ctx.pick("response_type", ["code", "token"])
    else:
        rtype = ctx.pick("response_type", ["code", "id_token token", "code id_token token"])
    if not words:
        ctx.stop()  # an OAuth2 request that asks for nothing
    a = ask(ctx, w, words, rtype)
    beyond = [x for x in words if x not in allowed]
    stays_within(ctx, w, words)
    if deny and beyond:
        ctx.cover("denied")
        ctx.check(a is None, "a request for a scope that is not allowed is answered")
        ctx.check(not all_tokens(w.sm) and not [v for v in w.sm.db.values() if hasattr(v, "issued_token")],
                  "a denied request leaves a grant or token behind")
        return
    ctx.check(a is not None, "a request for allowed scopes is refused")
    ctx.cover("answered")
    fits = [x for x in words if x in allowed]
    ctx.check(sorted(listed(a["scope"])) == sorted(fits) if "scope" in a else not fits,
              "the answer's scope is not what was requested and is allowed")
    token = a.get("access_token")
    if "code" in a:
        ep = w.ep("token")
        p = ctx.call(ep.parse_request, {"grant_type": "authorization_code", "code": a["code"], "client_id": "client_1",
                                        "client_secret": "hemligt_for_client_1", "redirect_uri": OWN})
        r = ctx.call(ep.process_request, p.value, issue_refresh=True)
        ctx.check(r.ok and "response_args" in r.value, "the code yields no token")
        ra = r.value["response_args"]
        ctx.check(all(x in words for x in listed(ra.get("scope", []))), "the token answer reports a scope that was not requested")
        token = ra["access_token"]
        stays_within(ctx, w, words)
        if "refresh_token" in ra:
            ctx.cover("refreshed")
            want = ctx.pick("narrow", ["all", "one", "more"])
            kw = {"all": {}, "one": {"scope": words[:1]}, "more": {"scope": words + ["more"]}}[want]
            n0 = len(all_tokens(w.sm))
            r = present(ctx, w, rreq(ra["refresh_token"], **kw))
            stays_within(ctx, w, words)
            new = all_tokens(w.sm)[n0:]
            if want == "more":
                ctx.check(not new, "a refresh with a scope that was not requested yields tokens")
            elif want == "one":
                ctx.check(all(x in words[:1] for t in new for x in t.scope or []), "a narrowing refresh does not narrow")
            if new and want != "all":
                return
    # what the scopes release
    ok = [c for s in fits for c in (mapping if mapping is not None else SPEC).get(s, [])]
    if w.oauth2:
        r = ctx.call(w.ep("introspection").process_request, {"token": token, "client_id": "client_1"})
        ctx.check(r.ok and "response_args" in r.value, "no introspection answer")
        info = r.value["response_args"]
        ctx.check(all(x in words for x in listed(info.get("scope", []))), "introspection reports a scope that was not requested")
    else:
        ep = w.ep("userinfo")
        p = ctx.call(ep.parse_request, {}, http_info={"headers": {"authorization": "Bearer " + token}})
        r = ctx.call(ep.process_request, p.value)
        if "openid" not in words:
            return
        ctx.check(r.ok and "response_args" in r.value, "no user info")
        info = r.value["response_args"]
    for c in RECORD:
        ctx.check(c not in info or c in ok, "a scope that is not allowed released a claim")
        ctx.check(c in info or c not in ok, "an allowed scope did not release its claim")


SPEC = dict(CLAIMS, extra=[])


def words(ctx, w):
    """Arbitrary scope words: what is not allowed is not reported."""
    allowed = ["openid"] + [ctx.str("allowed%d" % i, 10, 1, lo="a", hi="z") for i in range(ctx.params.get("n", 2))]
    if ctx.flag("at_client"):
        w.ctx.cdb["client_1"]["allowed_scopes"] = allowed
    else:
        w.ctx.scopes_handler.allowed_scopes = allowed
    want = ["openid"] + [ctx.str("scope%d" % i, 10, 1, lo="a", hi="z") for i in range(ctx.params.get("n", 2))]
    ctx.set_time(NOW)
    req = {"client_id": "client_1", "redirect_uri": OWN, "state": "STATE", "nonce": "NONCE", "response_type": ["code"], "scope": want}
    ep = w.ep("authorization")
    r = ctx.call(ep.parse_request, req)
    ctx.check(r.ok and "error" not in r.value, "the request is refused")
    p = ctx.call(ep.process_request, r.value)
    a = answer(p.value)
    ctx.check("code" in a, "the request is refused")
    got = a["scope"]
    ctx.cover("dropped" if len(got) < len(want) else "kept")
    for x in got:
        ctx.check(ctx.isin(x, allowed), "the answer reports a scope that is not allowed")
        ctx.check(ctx.isin(x, want), "the answer reports a scope that was not requested")
    for x in want:
        ctx.check(ctx.any(ctx.neg(ctx.isin(x, allowed)), *[x == y for y in got]), "the answer lacks an allowed scope")
    for v in [v for v in w.sm.db.values() if hasattr(v, "issued_token")]:
        for x in v.scope:
            ctx.check(ctx.isin(x, want), "a grant has a scope that was not requested")


HARNESSES = [
    Harness("oidc_endpoint", endpoint, oidc_world, covers=["denied", "answered", "refreshed"], quick={"n": 1}, thorough={"n": 2},
            bounds="openid and <= n of six scopes, in either order; six server sets; client sets, mappings, both or none; deny or drop; "
                   "three response types; redemption, refresh and user info"),
    Harness("oauth2_endpoint", endpoint, oauth2_world, covers=["denied", "answered", "refreshed"], quick={"n": 1}, thorough={"n": 2},
            bounds="as oidc_endpoint, on the OAuth2 endpoints with introspection"),
    Harness("oidc_words", words, oidc_world, covers=["dropped", "kept"], quick={"n": 2}, thorough={"n": 3},
            bounds="n requested and n allowed scopes, each any word of <= 10 letters, at server or client level"),
    Harness("oauth2_words", words, oauth2_world, covers=["dropped", "kept"], quick={"n": 2}, thorough={"n": 3},
            bounds="as oidc_words, on the OAuth2 endpoint"),
]
