"""C15: an authorization answer carries exactly what the response type asks for."""
from urllib.parse import parse_qs

from engine.harness_api import Harness
from harness.C14 import MODES
from harness.C16 import META
from harness.C16 import parse
from harness.C22 import decode as id_token_of
from harness.common import all_tokens
from harness.world import ISS
from harness.world import NOW
from harness.world import RESPONSE_TYPES
from harness.world import World

URIS = [("https://rp1.example.com/cb", None), ("https://rp1.example.com/other", None), ("https://rp1.example.com/q", {"a": ["b"]})]
ASKED = ["https://rp1.example.com/cb", "https://rp1.example.com/other", "https://rp1.example.com/q?a=b"]
KINDS = {"code": "authorization_code", "token": "access_token", "id_token": "id_token"}
FIELD = {"code": "code", "token": "access_token", "id_token": "id_token"}


def _world(oauth2, tweak=None):
    w = World(oauth2=oauth2, tweak=tweak)
    w.ctx.cdb["client_1"]["redirect_uris"] = URIS
    # NoAuthn always finds diana; let the harness say who it is
    w.who = w.ctx.authn_broker["anon"]["method"]
    return w


def oidc():
    return _world(False)


def oauth2():
    return _world(True)


def checked():
    """A provider that also offers session management."""
    w = _world(False)
    w.ctx.provider_info["check_session_iframe"] = ISS + "/check"
    return w


def delivered(ctx, w, value):
    """-> (where, target, fields) of what the user's browser is given."""
    ep = w.ep("authorization")
    d = ctx.call(ep.do_response, **value)
    ctx.check(d.ok, "the answer can not be delivered")
    body = d.value["response"]
    if ("Content-type", "text/html") in d.value["http_headers"] and body[:5] == "<html":
        tags, _ = parse(body)
        f = {}
        for n, attrs in tags:
            a = dict(attrs)
            if n == "form":
                target = a["action"]
            elif n == "input":
                ctx.check(a["name"] not in f, "a parameter is there twice")
                f[a["name"]] = a["value"]
        return "form_post", target, f
    base, frag, rest = body.partition("#")
    if frag:
        where, target, q = "fragment", base, rest
    else:
        where = "query"
        base, _, q = body.partition("?")
        target = base
        if q[:4] == "a=b&":
            target, q = base + "?a=b", q[4:]
    f = {}
    for k, v in parse_qs(q).items():
        ctx.check(len(v) == 1, "a parameter is there twice")
        f[k] = v[0]
    return where, target, f


def judge_state(ctx, value, mode, state):
    """Any state, before it is encoded."""
    if "response_args" in value:
        ctx.check(value["response_args"]["state"] == state, "the state is not echoed unchanged")
        ctx.cover("any state")


def composition(ctx, w):
    ep = w.ep("authorization")
    types = [x for x in RESPONSE_TYPES if not (w.oauth2 and "id_token" in x)]
    words = ctx.pick("response_type", types)
    if len(words) > 1 and ctx.flag("reversed"):
        words = words[::-1]
    mode = ctx.pick("response_mode", [""] + MODES)
    uri = ctx.pick("uri", ASKED)
    user = w.who.user = ctx.pick("user", ["diana", "babs"])
    client = "client_1"
    req = {"client_id": client, "redirect_uri": uri, "scope": "openid email", "response_type": words, "nonce": "NONCE"}
    if mode:
        req["response_mode"] = mode
    has_state = ctx.flag("with_state")
    if has_state:
        req["state"] = "STATE"
    r = ctx.call(ep.parse_request, req)
    ctx.assume(r.ok and "error" not in r.value)
    state = None
    deliver = True
    if has_state:
        if words in (["code"], ["code", "token"]):
            deliver = ctx.flag("deliver")
        if not deliver:
            state = ctx.str("state", 12, 1)
        elif mode == "form_post":
            # C16 takes the form apart character by character
            state = "a b&c=d"
        else:
            state = ctx.chars("state", ctx.params.get("chars", 1), 1, META)
        r.value["state"] = state
    ctx.set_time(NOW)
    # somebody else's sessions
    for u, c in (("diana", "client_2"), ("babs", "client_2"), (user, "client_1")):
        s = w.session(c, user=u)
        w.authorized(s)
        w.mint(s, "authorization_code")
    before = all_tokens(w.sm)
    p = ctx.call(ep.process_request, r.value)
    ctx.check(p.ok, "the request can not be answered")
    if not deliver:
        judge_state(ctx, p.value, mode, state)
        return
    where, target, f = delivered(ctx, w, p.value)
    ctx.check(target == uri, "the answer does not go to the redirect URI of the request")
    if has_state:
        ctx.check("state" in f and f["state"] == state, "the state is not echoed unchanged")
    else:
        ctx.check("state" not in f, "a state that was not sent is answered")
    secret = words not in (["code"], ["none"])
    if "error" in f:
        ctx.check(ctx.eq(mode, "fragment") if not secret else mode == "query", "a good request is refused")
        for x in FIELD.values():
            ctx.check(x not in f, "an error carries a code or token")
        ctx.cover("mode does not fit")
        return
    for x, name in FIELD.items():
        ctx.check((name in f) == (x in words), "the answer does not carry exactly what the response type asks for")
    ctx.check("refresh_token" not in f, "a refresh token is answered")
    ctx.check(where == (mode or ("fragment" if secret else "query")), "the answer is not put where it belongs")
    if secret:
        ctx.check(where != "query", "a token is put in the query part")
    new = [t for t in all_tokens(w.sm) if not any(t is o for o in before)]
    ctx.check(sorted(t.token_class for t in new) == sorted(KINDS[x] for x in words if x in KINDS),
              "other tokens are minted than those asked for")
    for t in new:
        ctx.check(any(f.get(n) == t.value for n in FIELD.values()), "a token is minted that is not answered")
    for x in ("code", "token"):
        if x in words:
            info = w.sm.get_session_info_by_token(f[FIELD[x]], grant=True)
            ctx.check(info["user_id"] == user and info["client_id"] == client, "what is answered was made for another user or client")
            ctx.check(info["grant"].get_token(f[FIELD[x]]).token_class == KINDS[x], "a token of another kind is answered")
            ctx.check(info["grant"].authorization_request["redirect_uri"] == uri, "the grant is about another redirect URI")
    if "token" in words:
        ctx.check(f.get("token_type") == "Bearer", "the type of the token is not told")
    if "id_token" in words:
        claims = id_token_of(ctx, f["id_token"])[0]
        ctx.check(claims["aud"] == [client] and claims["nonce"] == "NONCE", "the ID token was made for another client or request")
        ctx.check(claims["sub"] == w.sm[p.value["session_id"]].sub, "the ID token is about somebody else")
    if where != "form_post":
        ctx.check(f.get("iss") == ISS and f.get("client_id") == client, "the answer does not say who made it and for whom")
    if words != ["none"]:
        ctx.check(w.sm.decrypt_session_id(p.value["session_id"])[:2] == [user, client], "the answer belongs to another session")
    ctx.cover(where)


HARNESSES = [
    Harness("oidc", composition, oidc, covers=["query", "fragment", "form_post", "mode does not fit", "any state"], thorough={"chars": 2},
            bounds="all eight response types in both word orders, every mode, three redirect URIs, two users, arbitrary state up to 12 characters (delivered: one, thorough two, of every character special in URLs and HTML)"),
    Harness("oauth2", composition, oauth2, covers=["query", "fragment", "form_post", "mode does not fit", "any state"], thorough={"chars": 2}, bounds="the same at the OAuth 2.0 endpoint"),
    Harness("managed", composition, checked, covers=["query", "fragment", "form_post", "mode does not fit", "any state"], thorough={"chars": 2}, bounds="the same with session management"),
]
