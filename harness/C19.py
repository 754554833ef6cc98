"""C19: satisfying requests for claims with value constraints."""
from engine.harness_api import Harness
from harness.world import oidc_world

from oidcop.session.claims import claims_match
from oidcop.user_info import UserInfo
from oidcop.user_info import dict_subset


def claim(ctx, name, kinds):
    """A claim as found in a user record or a constraint."""
    k = ctx.pick(name + ".kind", kinds)
    if k == "absent":
        return None
    if k == "str":
        return ctx.str(name, 12)
    if k == "int":
        return ctx.int(name, -5, 1 << 40)
    if k == "bool":
        return ctx.bool(name)
    if k == "list":
        return [ctx.str("%s.%d" % (name, i), 8) for i in range(ctx.pick(name + ".n", [1, 2]))]
    if k == "dict":
        return {"locality": ctx.str(name + ".locality", 8)}
    raise ValueError(k)


def like(ctx, name, v):
    """A constraint of the same shape as the claim (or a string when there is none)."""
    if isinstance(v, list):
        return [ctx.str("%s.%d" % (name, i), 8) for i in range(ctx.pick(name + ".n", [1, 2]))]
    if isinstance(v, dict):
        return {"locality": ctx.str(name + ".locality", 8)}
    if v is None:
        return ctx.str(name, 8)
    k = ctx.pick(name + ".as", ["same", "other"])
    t = KIND.get(type(v).__name__, "str")
    if k == "same":
        return claim(ctx, name, [t])
    return claim(ctx, name, ["int" if t == "str" else "str"])


KIND = {"SymInt": "int", "int": "int", "SymBool": "bool", "bool": "bool", "SymStr": "str", "str": "str"}


def equal(ctx, a, b):
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list)) or len(a) != len(b):
            return False
        return ctx.all(*[x == y for x, y in zip(a, b)])
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and a["locality"] == b["locality"]
    return a == b


def spec(ctx, v):
    """An individual claims request and the condition under which a present claim satisfies it."""
    shape = ctx.pick("request", ["null", "empty", "essential", "unknown", "value", "values", "value+essential", "values+essential",
                                 "value+values", "essential+value", "values+unknown"])
    if shape == "null":
        return None, True
    s, conds = {}, []
    for part in [] if shape == "empty" else shape.split("+"):
        if part == "essential":
            s["essential"] = ctx.bool("essential")
        elif part == "unknown":
            s["purpose"] = ctx.str("purpose", 8)
        elif part == "value":
            s["value"] = like(ctx, "wanted", v)
            conds.append(equal(ctx, v, s["value"]))
        else:
            n = ctx.pick("n_values", [0, 1, 2, 3])
            s["values"] = [like(ctx, "wanted%d" % i, v) for i in range(n)]
            conds.append(ctx.any(False, *[equal(ctx, v, x) for x in s["values"]]))
    return s, (ctx.any(*conds) if conds else True)


def match(ctx, w):
    v = claim(ctx, "claim", ["absent", "str", "int", "bool", "list", "dict"])
    s, want = spec(ctx, v)
    if v is None:
        want = False
    got = ctx.call(claims_match, v, s)
    ctx.check(got.ok, "matching fails")
    ctx.cover("match" if got.value else "no_match")
    if got.value:
        ctx.check(want, "a claim satisfied a request it does not meet")
    else:
        ctx.check(ctx.neg(want), "a claim that meets the request does not satisfy it")


def released(ctx, w):
    """The same decision where the claims are released to a client."""
    record = {"nickname": "Dina"}
    v = claim(ctx, "claim", ["absent", "str", "bool"])
    if v is not None:
        record["zoneinfo"] = v
    w.ctx.userinfo = UserInfo(db={"diana": record, "babs": {"zoneinfo": "Europe/Oslo", "nickname": "babs"}})
    s, want = spec(ctx, v)
    r = ctx.call(w.ctx.claims_interface.get_user_claims, "diana", {"zoneinfo": s, "nickname": None, "locale": {"essential": True}})
    ctx.check(r.ok, "no claims at all")
    got = r.value
    ctx.check(got.get("nickname") == "Dina" and "locale" not in got, "other claims affected")
    if "zoneinfo" in got:
        ctx.cover("released")
        ctx.check(v is not None and want, "a claim is released although it does not meet the request")
        ctx.check(equal(ctx, got["zoneinfo"], v), "a released claim is not the user's")
    else:
        ctx.cover("withheld")
        ctx.check(v is None or ctx.neg(want), "a claim that meets the request is withheld")


def search(ctx, w):
    """Finding a user by claims: whoever is found has all of them."""
    db = {}
    for u in ("diana", "babs"):
        db[u] = {"email": ctx.str(u + ".email", 10)}
        if ctx.flag(u + ".has_phone"):
            db[u]["phone_number"] = [ctx.str("%s.phone%d" % (u, i), 6) for i in range(2)]
    by = {"email": ctx.str("email", 10)}
    k = ctx.pick("phone", ["no", "one", "two"])
    if k == "one":
        by["phone_number"] = ctx.str("phone.value", 6)
    elif k == "two":
        by["phone_number"] = [ctx.str("phone.value", 6)]

    def fits(u):
        c = [db[u]["email"] == by["email"]]
        if k != "no":
            x = by["phone_number"] if k == "one" else by["phone_number"][0]
            c.append(ctx.any(False, *[p == x for p in db[u].get("phone_number", [])]))
        return ctx.all(*c)

    r = ctx.call(UserInfo(db=db).search, **by)
    if r.ok:
        ctx.cover("found")
        ctx.check(fits(r.value), "a user is found who lacks a claim searched for")
    else:
        ctx.cover("none")
        ctx.check(ctx.all(ctx.neg(fits("diana")), ctx.neg(fits("babs"))), "a user with the claims is not found")


HARNESSES = [
    Harness("match", match, oidc_world, covers=["match", "no_match"],
            bounds="claims and constraints: any string <= 12, any integer, booleans, lists of <= 2 and one-member objects; <= 3 values; 11 shapes of request"),
    Harness("released", released, oidc_world, covers=["released", "withheld"],
            bounds="as match, for strings and booleans, through ClaimsInterface.get_user_claims"),
    Harness("search", search, oidc_world, covers=["found", "none"], bounds="two users, one or two claims, strings <= 10"),
]
