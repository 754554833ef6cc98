"""C31: precedence and isolation of usage rules."""
import copy

from engine.harness_api import Harness
from harness.common import BIG
from harness.common import sym_now
from harness.world import oidc_world

from oidcop.session import grant as grant_module

CLASSES = ["authorization_code", "access_token", "refresh_token", "id_token"]
SUP = ["access_token", "id_token"]
SUP2 = ["refresh_token"]


def rule(ctx, name, kind, sup):
    """A rule of the given kind with symbolic numbers; None: no rule."""
    if kind == "absent":
        return None
    r = {}
    if "e" in kind:
        r["expires_in"] = ctx.int(name + ".expires_in", 0, BIG)
    if "m" in kind:
        r["max_usage"] = ctx.int(name + ".max_usage", 0, 5)
    if "s" in kind:
        r["supports_minting"] = list(sup)
    return r


def same(ctx, a, b):
    """Deep equality of rule tables, with symbolic leaves."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return ctx.all(*[same(ctx, a[k], b[k]) for k in a]) if a else True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return ctx.all(*[same(ctx, x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
    return a == b


def snapshot(x):
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, list):
        return [snapshot(v) for v in x]
    return x


def overlay(server, client):
    """What the rules of a grant should be."""
    out = {k: snapshot(v) for k, v in (server or {}).items()}
    for k, v in (client or {}).items():
        if not v or k not in out:
            out[k] = snapshot(v)
        else:
            out[k].update(snapshot(v))
    return out


def configure(ctx, w, sk=("absent", "e", "s", "ems"), ck=("absent", "none", "e", "m", "s")):
    two = ctx.pick("classes", [("authorization_code", "access_token"), ("refresh_token", "authorization_code"),
                               ("access_token", "id_token")])
    server, client = {}, {}
    for c in two:
        k = ctx.pick("server." + c, list(sk))
        if k != "absent":
            server[c] = rule(ctx, "server." + c, k, SUP)
        k = ctx.pick("client." + c, list(ck))
        if k != "absent":
            client[c] = rule(ctx, "client." + c, k if k != "none" else "", SUP2)
    authz = w.ctx.authz
    authz.grant_config = {"expires_in": ctx.int("grant.expires_in", 1, BIG)}
    if server or ctx.flag("server_has_rules"):
        authz.grant_config["usage_rules"] = server
    if client or ctx.flag("client_has_rules"):
        w.ctx.cdb["client_1"]["token_usage_rules"] = client
    w.ctx.cdb["client_2"]["token_usage_rules"] = {"access_token": {"expires_in": 17}}
    before = (snapshot(authz.grant_config), snapshot(w.ctx.cdb["client_1"].get("token_usage_rules")),
              snapshot(grant_module.DEFAULT_USAGE))

    def untouched(what):
        ctx.check(same(ctx, authz.grant_config, before[0]), "the provider's configuration changed by " + what)
        now_ = w.ctx.cdb["client_1"].get("token_usage_rules")
        ctx.check((now_ is None) == (before[1] is None) and (now_ is None or same(ctx, now_, before[1])),
                  "a client's configuration changed by " + what)
        ctx.check(same(ctx, grant_module.DEFAULT_USAGE, before[2]), "the defaults changed by " + what)
        ctx.check(same(ctx, w.ctx.cdb["client_2"]["token_usage_rules"], {"access_token": {"expires_in": 17}}),
                  "another client's configuration changed by " + what)

    return authz, server, client, untouched


def precedence(ctx, w):
    authz, server, client, untouched = configure(ctx, w)
    want = overlay(server, client)
    r = ctx.call(authz.usage_rules, "client_1")
    ctx.check(r.ok and same(ctx, r.value, want), "the rules of a client are not the provider's overlaid with its own")
    ctx.cover("client" if client else "provider")
    ctx.check(same(ctx, authz.usage_rules(), server), "the provider's rules are not those configured")
    c = ctx.pick("asked", CLASSES)
    r = ctx.call(authz.usage_rules_for, "client_1", c)
    ctx.check(r.ok and same(ctx, r.value, want.get(c, {})), "the rules for one kind of token differ from the table")
    r = ctx.call(authz.usage_rules, "client_2")
    ctx.check(r.ok and same(ctx, r.value, overlay(server, {"access_token": {"expires_in": 17}})), "rules of one client reached another")
    untouched("looking rules up")


def authorize(ctx, w):
    authz, server, client, untouched = configure(ctx, w, ("absent", "e", "ems") if ctx.params.get("all") else ("absent", "ems"),
                                                 ("absent", "none", "e", "s") if ctx.params.get("all") else ("absent", "e", "s"))
    now = sym_now(ctx)
    want = overlay(server, client) if "usage_rules" in authz.grant_config else None
    r = ctx.call(lambda: w.ep("authorization").create_session(
        request=request(w), user_id="diana", acr="", time_stamp=0, authn_method=Method()))
    ctx.check(r.ok, "no session")
    sid = r.value
    if ctx.flag("used_before_authz"):
        mint(ctx, w, sid, now)
        untouched("minting in a session")
    r = ctx.call(authz, sid, request(w))
    ctx.check(r.ok, "authorization failed")
    grant = w.sm[sid]
    if want is None:
        want = snapshot(client)
    else:
        ctx.check(same(ctx, grant.usage_rules, want), "the rules of an authorized grant are not the provider's overlaid with the client's")
    ctx.check(grant.expires_at == now + authz.grant_config["expires_in"], "the grant does not live as long as configured")
    untouched("authorizing a session")
    mint(ctx, w, sid, now)
    untouched("minting in a session")
    ctx.cover("authorized")
    # a later session starts from the configuration, whatever happened to the first
    want2 = overlay(server, client) if "usage_rules" in authz.grant_config else snapshot(client)
    r = ctx.call(authz.usage_rules, "client_1")
    ctx.check(r.ok and same(ctx, r.value, want2), "the rules of a later session differ from the configuration")


def mint(ctx, w, sid, now):
    """One code and one refresh token: their classes complete their rules with defaults."""
    code = w.mint(sid, "authorization_code")
    code.register_usage()
    w.mint(sid, "refresh_token")
    w.mint(sid, "access_token")


class Method:
    kwargs = {}


def request(w):
    from oidcmsg.oidc import AuthorizationRequest
    return AuthorizationRequest(client_id="client_1", redirect_uri="https://rp1.example.com/cb", scope=["openid"],
                                state="STATE", response_type="code")


def defaults(ctx, w):
    """get_usage_rules: grant, then client, then provider, then default."""
    authz, server, client, untouched = configure(ctx, w, ("absent", "e", "s"), ("absent", "none", "e"))
    sid = w.session("client_1")
    grant = w.sm[sid]
    c = ctx.pick("asked", ["authorization_code", "access_token", "refresh_token"])
    k = ctx.pick("grant." + c, ["absent", "e", "s"])
    grant.usage_rules = {} if k == "absent" else {c: rule(ctx, "grant." + c, k, ["access_token"])}
    before = snapshot(grant.usage_rules)
    want = overlay(server, client).get(c) or snapshot(grant_module.DEFAULT_USAGE[c])
    want = dict(want, **before.get(c, {}))
    r = ctx.call(grant_module.get_usage_rules, c, w.ctx, grant, "client_1")
    ctx.check(r.ok and same(ctx, r.value, want), "grant, client, provider, default is not the order of precedence")
    ctx.cover("default" if c not in server and c not in client else "configured")
    untouched("looking rules up")
    ctx.check(same(ctx, grant.usage_rules, before), "the grant's own rules changed")


HARNESSES = [
    Harness("precedence", precedence, oidc_world, covers=["client", "provider"],
            bounds="two kinds of token at a time, four shapes of provider rule, five of client rule, symbolic numbers"),
    Harness("authorize", authorize, oidc_world, covers=["authorized"], thorough={"all": True},
            bounds="as precedence; one session created, used, authorized and used again, at any clock value"),
    Harness("defaults", defaults, oidc_world, covers=["default", "configured"],
            bounds="as precedence, with three shapes of grant rule"),
]
