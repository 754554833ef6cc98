"""C04: a refresh token works only for its client, while active, and never widens."""
from engine.harness_api import Harness
from harness.common import all_tokens
from harness.common import handed_out
from harness.common import outcome
from harness.common import sym_item
from harness.common import sym_now
from harness.world import NOW
from harness.world import oauth2_world
from harness.world import oidc_world

GRANTED = ["openid", "offline_access", "profile"]


def rreq(value, client="client_1", **kw):
    req = {"grant_type": "refresh_token", "refresh_token": value, "client_id": client,
           "client_secret": "hemligt_for_" + client}
    req.update(kw)
    return req


def present(ctx, w, req):
    ep = w.ep("token")
    r = ctx.call(ep.parse_request, req)
    if not r.ok:
        return r
    return ctx.call(ep.process_request, r.value)


def within(ctx, scope, allowed):
    return ctx.all(*[ctx.isin(s, allowed) for s in scope])


def gate(ctx, w):
    """A refresh token in an arbitrary state, presented by either client, with an arbitrary requested scope."""
    sid = w.session("client_1", scope=GRANTED)
    grant = w.authorized(sid)
    sid2 = w.session("client_2", user="babs", scope=["openid", "email"])
    w.authorized(sid2)
    code = w.mint(sid, "authorization_code")
    rt = w.mint(sid, "refresh_token", based_on=code)
    rt.usage_rules = dict(rt.usage_rules)
    if ctx.flag("limited"):
        rt.usage_rules["max_usage"] = 2
    now = sym_now(ctx)
    s_rt = sym_item(ctx, "refresh", rt)
    s_grant = sym_item(ctx, "grant", grant)
    client = ctx.pick("client", ["client_1", "client_2"])
    which = ctx.pick("presented", ["mine", "garbage"])
    value = rt.value if which == "mine" else rt.value[:-6] + "AAAAAA"
    n0 = len(all_tokens(w.sm))
    r = present(ctx, w, rreq(value, client))
    ctx.note(outcome(ctx, r))
    out = handed_out(r.value) if r.ok else []
    new = all_tokens(w.sm)[n0:]
    if out or new:
        ctx.cover("tokens")
        ctx.check(which == "mine", "tokens for a refresh token that was never issued")
        ctx.check(client == "client_1", "tokens for a client the refresh token was not issued to")
        ctx.check(s_rt.active(ctx, now), "tokens for a refresh token that is used up, revoked or outside its lifetime")
        ctx.check(s_grant.active(ctx, now), "tokens although the grant behind the refresh token is not active")
        for t in new:
            ctx.check(t.based_on == rt.value, "the new token does not record the refresh token as its source")
            if t.token_class != "id_token":
                ctx.check(within(ctx, t.scope or grant.scope, GRANTED), "a refresh widened the scope")
    else:
        ctx.cover("refused")
        ctx.check(ctx.neg(ctx.all(which == "mine", client == "client_1", s_rt.active(ctx, now),
                                  s_grant.active(ctx, now), now <= NOW + 86000)), "an active refresh token of this client is refused")


def scopes(ctx, w):
    """Arbitrary requested scope strings; the grant or the source token carries the scope."""
    sid = w.session("client_1", scope=GRANTED)
    grant = w.authorized(sid)
    code = w.mint(sid, "authorization_code")
    allowed = GRANTED
    where = ctx.pick("scope_at", ["grant", "code", "refresh"])
    if where == "code":
        code.scope = allowed = ["openid", "offline_access"]
    rt = w.mint(sid, "refresh_token", based_on=code)
    if where == "refresh":
        rt.scope = ["openid", "offline_access"]
    n = ctx.pick("n", [1, 2, 3][: ctx.params.get("n", 2)])
    req_scope = [ctx.str("scope%d" % i, 16, 1, lo="a", hi="~") for i in range(n)]
    n0 = len(all_tokens(w.sm))
    r = present(ctx, w, rreq(rt.value, scope=req_scope))
    ctx.note(outcome(ctx, r))
    out = handed_out(r.value) if r.ok else []
    new = all_tokens(w.sm)[n0:]
    if out or new:
        ctx.cover("tokens")
        ctx.check(within(ctx, req_scope, allowed), "a refresh with scopes beyond the grant yields tokens")
        ra = r.value["response_args"]
        ctx.check(ctx.all(len(ra["scope"]) == n, *[ctx.eq(ra["scope"][i], req_scope[i]) for i in range(len(ra["scope"]))]),
                  "the answer's scope is not the one requested")
        for t in new:
            ctx.check(within(ctx, t.scope, allowed), "a refresh widened the scope")
            ctx.check(within(ctx, t.scope, req_scope), "the new token's scope is not within the requested one")
            if t.token_class == "access_token":
                ctx.check(t.value == ra["access_token"], "another token than the recorded one is returned")
    else:
        ctx.cover("refused")
        ctx.check(ctx.neg(within(ctx, req_scope, allowed)), "a refresh within the granted scope is refused")


def chain(ctx, w):
    """Real refresh chains with narrowing requests; the last link must stay within what its source had."""
    sid = w.session("client_1", scope=GRANTED)
    grant = w.authorized(sid)
    code = w.mint(sid, "authorization_code")
    rt = w.mint(sid, "refresh_token", based_on=code)
    ep = w.ep("token")
    options = [None, ["openid", "offline_access"], ["offline_access"], GRANTED, ["openid", "offline_access", "email"]]
    source = list(GRANTED)  # what the token the current refresh token came from may do
    value, own = rt.value, list(GRANTED)
    for i in range(ctx.params.get("steps", 3)):
        want = ctx.pick("scope%d" % i, options)
        req = rreq(value)
        if want is not None:
            req["scope"] = want
        n0 = len(grant.issued_token)
        p = ctx.call(ep.parse_request, req)
        r = ctx.call(ep.process_request, p.value, issue_refresh=True)
        ok = bool(r.ok and handed_out(r.value))
        fits = want is None or all(s in source for s in want)
        ctx.check(ok == fits, "a refresh within its source's scope is refused, or one beyond it yields tokens")
        for t in grant.issued_token[n0:]:
            ctx.check(all(s in source for s in (t.scope or GRANTED)), "a refresh widened the scope")
        if not ok:
            ctx.cover("refused")
            return
        got = grant.issued_token[n0:]
        nrt = [t for t in got if t.token_class == "refresh_token"]
        ctx.check(len(nrt) == 1, "no replacement refresh token was recorded")
        source, own = own, list(want if want is not None else source)
        value = nrt[0].value
    ctx.cover("done")


def replaced(ctx, w):
    """Refresh tokens that are replaced on use; the switch at endpoint and client level."""
    sid = w.session("client_1", scope=GRANTED)
    grant = w.authorized(sid)
    code = w.mint(sid, "authorization_code")
    rt = w.mint(sid, "refresh_token", based_on=code)
    other = w.mint(sid, "refresh_token", based_on=code)
    ep = w.ep("token")
    at_ep = ctx.pick("endpoint", [False, True])
    at_client = ctx.pick("client", [None, False, True])
    ep.revoke_refresh_on_issue = at_ep
    if at_client is not None:
        w.ctx.cdb["client_1"]["revoke_refresh_on_issue"] = at_client
    replaced = at_ep if at_client is None else at_client
    both = ctx.flag("both_parsed_first")
    p1 = ctx.call(ep.parse_request, rreq(rt.value))
    p2 = ctx.call(ep.parse_request, rreq(rt.value)) if both else None
    r1 = ctx.call(ep.process_request, p1.value, issue_refresh=True)
    ctx.check(r1.ok and "refresh_token" in handed_out(r1.value), "a refresh yields no replacement")
    if not both:
        p2 = ctx.call(ep.parse_request, rreq(rt.value))
    r2 = ctx.call(ep.process_request, p2.value, issue_refresh=True) if p2.ok else p2
    ok2 = bool(r2.ok and handed_out(r2.value))
    ctx.check(ok2 == (not replaced), "a replaced refresh token still works, or one that is not replaced stopped working")
    r3 = present(ctx, w, rreq(r1.value["response_args"]["refresh_token"]))
    ctx.check(r3.ok and handed_out(r3.value), "the replacement refresh token does not work")
    ctx.check(not other.revoked, "a refresh revoked an unrelated refresh token")
    ctx.cover("replaced" if replaced else "kept")


def _pair(name, fn, **kw):
    return [Harness("oidc_" + name, fn, oidc_world, **kw), Harness("oauth2_" + name, fn, oauth2_world, **kw)]


HARNESSES = (
    _pair("gate", gate, covers=["tokens", "refused"],
          bounds="one refresh token, one grant, both in an arbitrary life-cycle state, arbitrary clock, either client")
    + _pair("scopes", scopes, covers=["tokens", "refused"], quick={"n": 2}, thorough={"n": 3},
            bounds="1..n requested scopes, each an arbitrary string <= 16 chars")
    + _pair("chain", chain, covers=["done", "refused"], quick={"steps": 2}, thorough={"steps": 3},
            bounds="chains of `steps` refreshes, five scope requests at each")
    + _pair("replaced", replaced, covers=["replaced", "kept"],
            bounds="every setting of the replace-on-use switch at endpoint and client, two schedules")
)
