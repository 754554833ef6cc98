"""C05: minting discipline."""
from engine.harness_api import Harness
from harness.common import BIG
from harness.common import Snap
from harness.common import all_tokens
from harness.common import handed_out
from harness.common import outcome
from harness.common import sym_item
from harness.common import sym_now
from harness.world import oauth2_world
from harness.world import oidc_world

from oidcop.session.token import MintingNotAllowed

CLASSES = ["authorization_code", "access_token", "refresh_token", "id_token"]


def mint(ctx, w):
    """Grant.mint_token from a source in an arbitrary state, with arbitrary rules."""
    sid = w.session("client_1", scope=["openid"])
    grant = w.authorized(sid)
    src_class = ctx.pick("source_class", ["authorization_code", "refresh_token", "access_token"])
    src = w.mint(sid, src_class)
    # the rules of the source
    allowed = None
    rules = {}
    if ctx.flag("has_supports_minting"):
        allowed = [c for c in ("access_token", "refresh_token", "id_token") if ctx.flag("may_" + c)]
        rules["supports_minting"] = list(allowed)
    if ctx.flag("limited"):
        rules["max_usage"] = ctx.int("max_usage", 0, 5)
    src.usage_rules = rules
    now = sym_now(ctx)
    s = sym_item(ctx, "source", src)
    g = sym_item(ctx, "grant", grant, used=False)
    want = ctx.pick("wanted", ["access_token", "refresh_token", "id_token"])
    n0 = len(grant.issued_token)
    r = ctx.call(grant.mint_token, sid, endpoint_context=w.ctx, token_class=want, based_on=src,
                 usage_rules={}, token_handler=w.sm.token_handler[want])
    minted = bool(r.ok and r.value is not None)
    ctx.note(minted)
    ok = ctx.all(allowed is not None and want in allowed, s.active(ctx, now), g.active(ctx, now))
    if minted:
        ctx.cover("minted")
        ctx.check(ok, "token minted although its source does not permit it")
        t = r.value
        ctx.check(t.token_class == want and t.based_on == src.value, "minted token does not record class and source")
        ctx.check(len(grant.issued_token) == n0 + 1 and grant.issued_token[-1] is t, "minted token not recorded once")
    else:
        ctx.cover("refused")
        ctx.check(ctx.neg(ok), "a permitted minting was refused")
        ctx.check(len(grant.issued_token) == n0, "a refused minting left a token behind")


def refreshes(ctx, w):
    """A refresh token with a usage limit at the token endpoint."""
    sid = w.session("client_1", scope=["openid", "offline_access"])
    grant = w.authorized(sid)
    src = w.mint(sid, "refresh_token")
    limit = ctx.int("max_usage", 0, 3)
    src.usage_rules = dict(src.usage_rules)
    src.usage_rules["max_usage"] = limit
    ep = w.ep("token")
    n = ctx.params.get("n", 4)
    done = 0
    schedule = ctx.pick("schedule", ["sequential", "parse_first"])
    req = {"grant_type": "refresh_token", "refresh_token": src.value, "client_id": "client_1",
           "client_secret": "hemligt_for_client_1"}
    parsed = []
    if schedule == "parse_first":
        parsed = [ctx.call(ep.parse_request, dict(req)) for i in range(n)]
    for i in range(n):
        p = parsed[i] if parsed else ctx.call(ep.parse_request, dict(req))
        if not p.ok:
            continue
        n0 = len(all_tokens(w.sm))
        r = ctx.call(ep.process_request, p.value)
        if r.ok and handed_out(r.value):
            done += 1
        else:
            ctx.check(len(all_tokens(w.sm)) == n0, "a refused refresh left tokens behind")
    ctx.note(done)
    ctx.cover("some" if done else "none")
    ctx.check(done <= limit, "a source was used beyond its usage limit")
    ctx.check(ctx.any(done == limit, done == n), "a source was refused before its usage limit")


def lifetime(ctx, w):
    """Lifetimes of what the token endpoint mints."""
    sid = w.session("client_1", scope=["openid", "offline_access"])
    grant = w.authorized(sid)
    code = w.mint(sid, "authorization_code")
    rules = {}
    for c in ("access_token", "refresh_token", "id_token"):
        if ctx.flag("rule_" + c):
            rules[c] = {"expires_in": ctx.int("expires_in_" + c, 1, BIG)}
            if c == "refresh_token":
                rules[c]["supports_minting"] = ["access_token", "refresh_token", "id_token"]
    grant.usage_rules = dict(rules)
    now = sym_now(ctx)
    ep = w.ep("token")
    req = {"grant_type": "authorization_code", "code": code.value, "client_id": "client_1",
           "client_secret": "hemligt_for_client_1", "redirect_uri": "https://rp1.example.com/cb"}
    grant.expires_at = 0
    if ctx.flag("via_refresh"):
        rt = w.mint(sid, "refresh_token", based_on=code)
        rt.usage_rules = {"supports_minting": ["access_token", "refresh_token", "id_token"]}
        req = {"grant_type": "refresh_token", "refresh_token": rt.value, "client_id": "client_1",
               "client_secret": "hemligt_for_client_1"}
    n0 = len(grant.issued_token)
    p = ctx.call(ep.parse_request, req)
    r = ctx.call(ep.process_request, p.value)
    ctx.check(r.ok and "access_token" in handed_out(r.value), "an active source yields no tokens")
    for t in grant.issued_token[n0:]:
        ctx.cover(t.token_class)
        rule = rules.get(t.token_class)
        if rule:
            e = rule["expires_in"]
            ctx.check(t.expires_at == now + e, "a minted token's lifetime is not what its usage rule states")
            if t.token_class != "id_token":
                info = w.sm.token_handler[t.token_class].info(t.value)
                ctx.check(info["exp"] == now + e, "the expiry inside the token is not what its usage rule states")
        else:
            ctx.check(t.expires_at == now + 1800, "a minted token's lifetime is not the default")
        if t.token_class == "access_token":
            ra = r.value["response_args"]
            if "expires_in" in ra:
                ctx.check(ra["expires_in"] == t.expires_at - now, "expires_in in the answer is not the token's lifetime")
            else:
                ctx.fail("the answer hides the token's lifetime")


HARNESSES = [
    Harness("mint", mint, oidc_world, covers=["minted", "refused"],
            bounds="one source of each class with every rule table over the token classes, every life-cycle state, every clock value"),
    Harness("oidc_refreshes", refreshes, oidc_world, covers=["some", "none"], quick={"n": 4}, thorough={"n": 5},
            bounds="usage limit 0..3 (symbolic), up to n uses, sequential or all parsed first"),
    Harness("oauth2_refreshes", refreshes, oauth2_world, covers=["some", "none"], quick={"n": 4}, thorough={"n": 5},
            bounds="as oidc_refreshes at the OAuth2 token endpoint"),
    Harness("oidc_lifetime", lifetime, oidc_world, covers=["access_token", "refresh_token", "id_token"],
            bounds="every combination of usage rules with symbolic lifetimes, every clock value"),
    Harness("oauth2_lifetime", lifetime, oauth2_world, covers=["access_token"],
            bounds="as oidc_lifetime at the OAuth2 token endpoint"),
]
