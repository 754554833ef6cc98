"""C18: claims are released only when asked for or configured."""
from cryptojwt.jws.jws import factory

from engine.harness_api import Harness
from harness.C31 import same
from harness.C31 import snapshot
from harness.world import oidc_world

POINTS = ["userinfo", "introspection", "id_token", "access_token"]
USER = ["name", "nickname", "email", "email_verified", "phone_number", "given_name", "family_name", "address"]
SCOPE = {"profile": ["name", "given_name", "family_name", "nickname"], "email": ["email", "email_verified"],
         "phone": ["phone_number", "phone_number_verified"], "address": ["address"]}


def module(w, point):
    return w.ep(point) if point in ("userinfo", "introspection") else w.sm.token_handler[point]


def constraint(ctx, name):
    k = ctx.pick(name, ["null", "essential", "value", "values"])
    if k == "null":
        return None
    if k == "essential":
        return {"essential": True}
    if k == "value":
        return {"value": ctx.str(name + ".v", 10)}
    return {"values": [ctx.str(name + ".v0", 10), ctx.str(name + ".v1", 10)]}


def meets(ctx, value, c):
    if c is None or ("value" not in c and "values" not in c):
        return True
    return ctx.any(False, *[value == x for x in ([c["value"]] if "value" in c else c["values"])])


def wanted(cfg, client, point, scopes, asked, secondary=""):
    """The claims to release there, with their constraints, from the configuration and the request."""
    spec = dict(cfg.get("base_claims", {}))
    by_scope = cfg.get("add_claims_by_scope", False)
    if cfg.get("enable_claims_per_client"):
        always = client.get("add_claims", {}).get("always", {})
        own = client.get("add_claims", {}).get("by_scope", {})
        add = [always[p] for p in (point, secondary) if p in always]
        said = [own[p] for p in (point, secondary) if p in own]
        if said:
            by_scope = any(said)
    else:
        add = [cfg["always_add_claims"]] if "always_add_claims" in cfg else []
    for a in add:
        spec.update(a if isinstance(a, dict) else {k: None for k in a})
    if by_scope:
        for s in scopes:
            if "allowed_scopes" in client and s not in client["allowed_scopes"]:
                continue
            for k in client.get("scopes_to_claims", SCOPE).get(s, []):
                spec[k] = None
    spec.update(asked.get(point, {}))
    return spec


def release(ctx, w, sid, point, as_if=""):
    """What a relying party is told there about the user."""
    grant = w.sm[sid]
    client_id = w.sm.decrypt_session_id(sid)[1]
    if point == "id_token":
        kw = {"as_if": as_if} if as_if else {}
        t = w.mint(sid, "id_token", **kw)
        info = factory(t.value).jwt.payload()
    else:
        t = w.mint(sid, "access_token")
        if point == "access_token":
            info = factory(t.value).jwt.payload()
        elif point == "userinfo":
            ep = w.ep("userinfo")
            p = ctx.call(ep.parse_request, {}, http_info={"headers": {"authorization": "Bearer " + t.value}})
            r = ctx.call(ep.process_request, p.value)
            ctx.check(r.ok and "response_args" in r.value, "no user info")
            info = r.value["response_args"]
        else:
            r = ctx.call(w.ep("introspection").process_request, {"token": t.value, "client_id": client_id})
            ctx.check(r.ok and r.value["response_args"].get("active"), "no introspection answer")
            info = r.value["response_args"]
    return info


def judge(ctx, info, spec, record, what):
    names = set(USER) | set(spec) | set(record)
    for k in sorted(names):
        ok = k in spec and k in record
        if k in info:
            ctx.check(ok, what + ": a claim is released that nobody asked for")
            if ok:
                ctx.check(meets(ctx, record[k], spec[k]), what + ": a claim is released although its value is not one asked for")
                ctx.check(same(ctx, record[k], info[k]), what + ": a released claim is not the user's")
        else:
            ctx.check(not ok or ctx.neg(meets(ctx, record[k], spec[k])), what + ": a claim asked for is withheld")


def record_for(ctx, w):
    rec = {"name": "Diana Krall", "given_name": "Diana", "nickname": ctx.str("nickname", 10), "phone_number": "+46907865000",
           "email_verified": False, "address": {"locality": "Umea"}}
    if ctx.flag("has_email"):
        rec["email"] = ctx.str("email", 10)
    w.ctx.userinfo.db["diana"] = rec
    return rec


def run(ctx, w, cfg, client, scopes, asked, points=POINTS, as_if=""):
    point = ctx.pick("point", points)
    rec = record_for(ctx, w)
    base = {k: v for k, v in module(w, point).kwargs.items() if k not in
            ("base_claims", "add_claims_by_scope", "enable_claims_per_client", "always_add_claims")}
    for p in POINTS:
        module(w, p).kwargs = dict(module(w, p).kwargs)
    base.update(cfg(point))
    module(w, point).kwargs = base
    w.ctx.cdb["client_1"].update(client)
    asked = asked(point)
    before = (snapshot(base), snapshot(w.ctx.cdb["client_1"]), snapshot(asked))
    sid = w.session("client_1", scope=["openid"] + scopes)
    w.sm[sid].authorization_request["claims"] = asked
    w.authorized(sid)
    spec = wanted(cfg(point), client, point, scopes, asked, as_if)
    info = release(ctx, w, sid, point, as_if)
    judge(ctx, info, spec, rec, "first")
    ctx.cover(point)
    # another client of the same user, with its own (empty) request and configuration
    sid2 = w.session("client_2", scope=["openid", "email"])
    w.authorized(sid2)
    judge(ctx, release(ctx, w, sid2, point), wanted(cfg(point), {}, point, ["email"], {}), rec, "other client")
    # a later session of the first client without any claims request
    sid3 = w.session("client_1", scope=["openid", "email"])
    w.authorized(sid3)
    judge(ctx, release(ctx, w, sid3, point), wanted(cfg(point), client, point, ["email"], {}), rec, "later session")
    judge(ctx, release(ctx, w, sid, point, as_if), spec, rec, "again")
    ctx.check(same(ctx, snapshot(module(w, point).kwargs), before[0]), "the provider's configuration changed")
    ctx.check(same(ctx, snapshot(w.ctx.cdb["client_1"]), before[1]), "the client's configuration changed")
    ctx.check(same(ctx, snapshot(asked), before[2]), "the request changed")


def sources(ctx, w):
    """Base claims, always released claims, scopes and the claims request."""
    cfg = {}
    b = ctx.pick("base", ["none", "free", "bound"])
    if b != "none":
        cfg["base_claims"] = {"email": None if b == "free" else {"value": ctx.str("base.v", 10)}}
    a = ctx.pick("always", ["none", "list"])
    if a == "list":
        cfg["always_add_claims"] = ["nickname", "zoneinfo"]
    if ctx.flag("by_scope"):
        cfg["add_claims_by_scope"] = True
    which = ctx.pick("request", ["none", "here", "elsewhere"])
    c = constraint(ctx, "constraint") if which != "none" else None

    def asked(point):
        other = "introspection" if point != "introspection" else "userinfo"
        return {} if which == "none" else {point if which == "here" else other: {"nickname": c, "phone_number": None, "locale": None}}

    run(ctx, w, lambda p: dict(cfg), {}, ["email"], asked)


def per_client(ctx, w):
    """What a client is configured with."""
    m = ctx.flag("module_by_scope")
    point_cfg = {"enable_claims_per_client": True}
    if m:
        point_cfg["add_claims_by_scope"] = True
    own = ctx.pick("own_by_scope", ["unset", "on", "off", "elsewhere"])
    al = ctx.pick("always", ["none", "list", "dict", "elsewhere"])
    client = {"add_claims": {}}

    def cfg(point):
        other = "introspection" if point != "introspection" else "userinfo"
        if own != "unset":
            client["add_claims"]["by_scope"] = {point: own == "on"} if own != "elsewhere" else {other: True}
        if al != "none":
            client["add_claims"]["always"] = {"list": {point: ["nickname"]}, "dict": {point: {"nickname": {"value": V}}},
                                              "elsewhere": {other: ["nickname", "phone_number"]}}[al]
        return dict(point_cfg)

    V = ctx.str("always.v", 10)
    run(ctx, w, cfg, client, ["email", "phone"], lambda p: {})


def secondary(ctx, w):
    """An ID token that stands in for user info (response type id_token)."""
    client = {"add_claims": {"always": {}, "by_scope": {}}}
    V = ctx.str("always.v", 10)
    for p, claims in (("id_token", ["nickname"]), ("userinfo", ["phone_number"])):
        k = ctx.pick("always." + p, ["none", "list", "dict"])
        if k != "none":
            client["add_claims"]["always"][p] = claims if k == "list" else {claims[0]: {"value": V}}
        k = ctx.pick("by_scope." + p, ["unset", "on", "off"])
        if k != "unset":
            client["add_claims"]["by_scope"][p] = k == "on"
    cfg = {"enable_claims_per_client": True}
    if ctx.flag("module_by_scope"):
        cfg["add_claims_by_scope"] = True
    run(ctx, w, lambda p: dict(cfg), client, ["email"], lambda p: {}, points=["id_token"], as_if="userinfo")


def scopes(ctx, w):
    """Scope-based release: only for scopes the client may have, by its own mapping."""
    sc = [s for s in ("profile", "email", "phone") if ctx.flag("scope." + s)]
    client = {}
    k = ctx.pick("allowed", ["any", "email", "none"])
    if k != "any":
        client["allowed_scopes"] = ["openid"] + (["email"] if k == "email" else [])
    if ctx.flag("own_mapping"):
        client["scopes_to_claims"] = {"openid": ["sub"], "email": ["email", "phone_number"], "profile": ["nickname"]}
        client.setdefault("allowed_scopes", ["openid", "email", "profile"])
    run(ctx, w, lambda p: {"add_claims_by_scope": True}, client, sc, lambda p: {})


HARNESSES = [
    Harness("sources", sources, oidc_world, covers=POINTS,
            bounds="every combination of three base, two always and two scope settings with nine requests; any nickname/email/constraint strings <= 10; three sessions of two clients"),
    Harness("per_client", per_client, oidc_world, covers=POINTS, bounds="as sources, for the per-client configuration"),
    Harness("secondary", secondary, oidc_world, covers=["id_token"], bounds="as per_client, for ID tokens that stand in for user info"),
    Harness("scopes", scopes, oidc_world, covers=POINTS, bounds="every subset of three scopes, three allow lists, two mappings"),
]
