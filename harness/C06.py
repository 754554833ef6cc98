"""C06: validity windows of tokens, grants and authentication events."""
from engine.harness_api import Harness
from harness.common import BIG
from harness.world import oidc_world

from oidcop.authn_event import AuthnEvent
from oidcop.authn_event import create_authn_event
from oidcop.session.grant import Grant
from oidcop.session.token import AccessToken
from oidcop.session.token import AuthorizationCode
from oidcop.session.token import IDToken
from oidcop.session.token import Item
from oidcop.session.token import RefreshToken
from oidcop.session.token import SessionToken

KINDS = [Item, SessionToken, AccessToken, AuthorizationCode, RefreshToken, IDToken, Grant]


def build(ctx, kind):
    args = {
        "expires_at": ctx.int("expires_at", 0, BIG),
        "revoked": ctx.bool("revoked"),
        "issued_at": ctx.int("issued_at", 1, BIG),
    }
    limited = ctx.flag("limited")
    rules = {}
    if limited:
        rules["max_usage"] = ctx.int("max_usage", 0, 10)
    args["usage_rules"] = rules
    item = kind(**args)
    item.used = ctx.int("used", 0, 10)
    item.not_before = ctx.int("not_before", 0, BIG)
    limit = None
    if limited:
        limit = rules["max_usage"]
    if kind is AuthorizationCode:
        limit = 1
    return item, args, limit


def spec(ctx, item, args, limit, used, now):
    cs = [
        ctx.neg(args["revoked"]),
        ctx.any(args["expires_at"] == 0, now <= args["expires_at"]),
        ctx.any(item.not_before == 0, now >= item.not_before),
    ]
    if limit is not None:
        cs.append(used < limit)
    return ctx.all(*cs)


def active(ctx, w):
    kind = ctx.pick("kind", KINDS)
    item, args, limit = build(ctx, kind)
    used = item.used
    now = ctx.int("now", 1, BIG)
    ctx.set_time(now)
    explicit = ctx.flag("explicit_now")
    r = item.is_active(now) if explicit else item.is_active()
    ctx.note(bool(r))
    want = spec(ctx, item, args, limit, used, now)
    if r:
        ctx.cover("active")
        ctx.check(want, "an item outside its validity counts as active")
    else:
        ctx.cover("inactive")
        ctx.check(ctx.neg(want), "a valid item counts as inactive")
    # later: nothing but time passes
    later = ctx.int("later", 1, BIG)
    ctx.assume(later >= now)
    ctx.set_time(later)
    r2 = item.is_active()
    if r2 and not r:
        ctx.check(ctx.all(ctx.neg(args["revoked"]), item.not_before != 0, now < item.not_before),
                  "an expired, revoked or used-up item became active again")
    # and revocation / use end it
    item.revoke()
    ctx.check(not item.is_active(), "a revoked item counts as active")
    if isinstance(item, SessionToken):
        item.revoked = False
        item.register_usage()
        ctx.check(item.used == used + 1, "a use is not counted once")
        if limit is not None:
            ctx.check(ctx.any(ctx.neg(item.is_active()), used + 1 < limit), "active beyond its usage limit")


def lifetime(ctx, w):
    """Constructing an item with a relative lifetime."""
    kind = ctx.pick("kind", [Item, AccessToken, RefreshToken, IDToken, AuthorizationCode, Grant])
    now = ctx.int("now", 1, BIG)
    ctx.set_time(now)
    exp_in = ctx.int("expires_in", 1, BIG)
    item = kind(expires_in=exp_in)
    ctx.check(item.expires_at == now + exp_in, "a lifetime of n seconds does not end n seconds from now")
    later = ctx.int("later", 1, 4 * BIG)
    ctx.assume(later >= now)
    ctx.set_time(later)
    r = item.is_active()
    ctx.check(ctx.eq(bool(r), ctx.all(later <= now + exp_in)), "wrong end of lifetime")
    item2 = kind()
    item2.set_expires_at(exp_in)
    ctx.check(item2.expires_at == later + exp_in, "set_expires_at is not relative to now")
    ctx.cover("done")


def authn(ctx, w):
    now = ctx.int("now", 1, BIG)
    ctx.set_time(now)
    how = ctx.pick("how", ["valid_until", "expires_in", "default"])
    at = ctx.pick("authn_time", ["given", "timestamp", "now"])
    kw = {}
    t0 = now
    if at == "given":
        t0 = ctx.int("t0", 1, BIG)
        kw["authn_time"] = t0
    elif at == "timestamp":
        t0 = ctx.int("t0", 1, BIG)
        kw["timestamp"] = t0
    if how == "valid_until":
        end = ctx.int("valid_until", 1, BIG)
        kw["valid_until"] = end
    elif how == "expires_in":
        e = ctx.int("expires_in", 1, BIG)
        kw["expires_in"] = e
        end = t0 + e
    else:
        end = t0 + 3600
    ev = create_authn_event("diana", authn_info="loa", **kw)
    ctx.check(ev["authn_time"] == t0, "wrong authentication time recorded")
    ctx.check(ev["valid_until"] == end, "wrong end of validity recorded")
    t = ctx.int("t", 1, 3 * BIG)
    explicit = ctx.flag("explicit")
    if explicit:
        r = ev.is_valid(t)
    else:
        ctx.set_time(t)
        r = ev.is_valid()
    ctx.cover("valid" if r else "invalid")
    ctx.check(ctx.eq(bool(r), ctx.all(t < end)), "authentication validity does not end when it should")


HARNESSES = [
    Harness("active", active, None, covers=["active", "inactive"],
            bounds="all integer start/expiry/usage/limit values (< 2^40), two instants"),
    Harness("lifetime", lifetime, None, covers=["done"], bounds="all lifetimes and instants < 2^40"),
    Harness("authn", authn, None, covers=["valid", "invalid"], bounds="all instants < 2^40"),
]
