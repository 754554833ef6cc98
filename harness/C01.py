"""C01: an authorization code is redeemed at most once, by its owner, with its redirect URI, in time."""
from engine.harness_api import Harness
from harness.common import all_tokens
from harness.common import handed_out
from harness.common import outcome
from harness.common import Snap
from harness.common import sym_item
from harness.common import sym_now
from harness.world import oauth2_world
from harness.world import oidc_world
from harness.world import World

CB = "https://rp1.example.com/cb"


def prepare(ctx, w):
    """A code for client_1 and one for client_2, both with a live grant behind them."""
    sid1 = w.session("client_1", scope=["openid", "offline_access"])
    g1 = w.authorized(sid1)
    code1 = w.mint(sid1, "authorization_code")
    sid2 = w.session("client_2", user="babs")
    w.authorized(sid2)
    code2 = w.mint(sid2, "authorization_code")
    return sid1, g1, code1, code2


def request(code, client, redirect):
    req = {
        "grant_type": "authorization_code", "code": code, "client_id": client,
        "client_secret": "hemligt_for_" + client,
    }
    if redirect is not None:
        req["redirect_uri"] = redirect
    return req


def redeem(ctx, w, req):
    ep = w.ep("token")
    r = ctx.call(ep.parse_request, req)
    if not r.ok:
        return r
    return ctx.call(ep.process_request, r.value)


def gate(ctx, w):
    sid1, g1, code1, code2 = prepare(ctx, w)
    now = sym_now(ctx)
    s_code = sym_item(ctx, "code", code1)
    s_grant = sym_item(ctx, "grant", g1)
    client = ctx.pick("client", ["client_1", "client_2"])
    which = ctx.pick("code_presented", ["mine", "garbage"])
    redirect = ctx.pick("redirect_kind", ["free", "near", "absent"])
    if redirect == "free":
        redirect = ctx.str("redirect_uri", 30)
    elif redirect == "near":
        redirect = ctx.chars("redirect_uri", len(CB) + 1, minlen=len(CB) - 1)
    else:
        redirect = None
    value = code1.value if which == "mine" else "AAAA" + code1.value[4:]
    n_before = len(all_tokens(w.sm))
    r = redeem(ctx, w, request(value, client, redirect))
    ctx.note(outcome(ctx, r))
    out = handed_out(r.value) if r.ok else []
    n_new = len(all_tokens(w.sm)) - n_before
    ctx.trace({"client": client, "out": out, "new": n_new})
    if out or n_new:
        ctx.cover("tokens")
        ctx.check(which == "mine", "tokens for a code that was never issued")
        ctx.check(client == "client_1", "tokens for a client that does not own the code")
        ctx.check(redirect is not None, "tokens without the redirect URI of the request")
        if redirect is not None:
            ctx.check(redirect == CB, "tokens with another redirect URI")
        ctx.check(s_code.active(ctx, now), "tokens for a code that is used, revoked or outside its lifetime")
        ctx.check(s_grant.active(ctx, now), "tokens although the grant behind the code is not active")
        r2 = redeem(ctx, w, request(value, client, CB))
        ctx.check(not (r2.ok and handed_out(r2.value)), "second redemption yields tokens")
    else:
        ctx.cover("refused")


def interleaved(ctx, w):
    """Two requests with the same code whose parsing and processing interleave."""
    sid1, g1, code1, code2 = prepare(ctx, w)
    order = ctx.pick("order", ["ABab", "ABba", "AaBb", "AaBbCc", "ABCabc", "ABaCbc"])
    ep = w.ep("token")
    parsed, n_out = {}, 0
    for ch in order:
        if ch.isupper():
            cl = ctx.pick("client_" + ch, ["client_1", "client_2"])
            parsed[ch] = ctx.call(ep.parse_request, request(code1.value, cl, CB))
        else:
            p = parsed[ch.upper()]
            if not p.ok:
                continue
            r = ctx.call(ep.process_request, p.value)
            if r.ok and handed_out(r.value):
                n_out += 1
    ctx.note(n_out)
    if n_out:
        ctx.cover("one")
    ctx.check(n_out <= 1, "one code redeemed more than once")
    live = [t for t in all_tokens(w.sm) if t.token_class == "access_token"]
    ctx.check(len(live) <= 1, "one code produced more than one access token")


HARNESSES = [
    Harness("oidc_gate", gate, oidc_world, covers=["tokens", "refused"],
            bounds="one code, one grant; arbitrary life-cycle state of both; arbitrary clock; redirect URI <= 30 chars (any string), and any string of the registered length +-1 compared by character"),
    Harness("oauth2_gate", gate, oauth2_world, covers=["tokens", "refused"],
            bounds="as oidc_gate, on the OAuth2 token endpoint"),
    Harness("oidc_interleaved", interleaved, oidc_world, covers=["one"],
            bounds="<= 3 requests, 6 parse/process schedules"),
    Harness("oauth2_interleaved", interleaved, oauth2_world, covers=["one"],
            bounds="<= 3 requests, 6 parse/process schedules"),
]
