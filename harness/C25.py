"""C25: reading a client's registration."""
from engine.harness_api import Harness
from harness.C24 import Client
from harness.C24 import message
from harness.C24 import register
from harness.world import NOW
from harness.world import World


def world(methods):
    def setup():
        def tweak(conf):
            conf["endpoint"]["registration_read"] = {
                "path": "registration_api", "class": "oidcop.oidc.read_registration.RegistrationRead", "kwargs": {},
            }
            if methods:
                conf["endpoint"]["registration_read"]["kwargs"]["client_authn_method"] = methods

        return World(tweak=tweak)

    return setup


def read(ctx, w):
    """Three clients; any token, presented any way, for any client."""
    ctx.set_time(NOW)
    w.ctx.httpc = Client(ctx, None)
    a = register(ctx, w, message({"redirect_uris": ["https://a.example.com/cb?x=1&y=2"], "client_name": "A"}))
    b = register(ctx, w, message({"redirect_uris": ["https://b.example.com/cb"], "client_name": "B"}))
    if ctx.flag("re_registered"):
        b2 = register(ctx, w, message({"redirect_uris": ["https://b.example.com/cb"], "client_name": "B2"}))
    else:
        b2 = None
    ctx.check(a is not None and b is not None, "a good registration is refused")
    sid = w.session("client_1", scope=["openid"])
    w.authorized(sid)
    access = w.mint(sid, "access_token").value
    about = ctx.pick("client_id", ["a", "b", "client_1", "absent", "any"])
    cid = {"a": a["client_id"], "b": b["client_id"], "client_1": "client_1", "absent": None}.get(about)
    if about == "any":
        cid = ctx.str("client_id.text", 20)
    kind = ctx.pick("token", ["of_a", "of_b", "of_other", "secret_a", "access", "client_id", "any", "none"])
    token = {"of_a": a["registration_access_token"], "of_b": b["registration_access_token"], "secret_a": a["client_secret"],
             "access": access, "client_id": a["client_id"], "none": None}.get(kind)
    if kind == "of_other":
        # of a client that is called anything else
        token = "the registration token of another client"
        other = ctx.str("other.text", 20)
        ctx.assume(ctx.all(*[other != x for x in (a["client_id"], b["client_id"], "client_1")]))
        ctx.assume(cid is None or ctx.neg(ctx.eq(other, cid)))
        w.ctx.registration_access_token[token] = other
    if kind == "any":
        token = ctx.str("token.text", 40)
    how = ctx.pick("how", ["header", "body", "basic", "bare", "both", "post"]) if token is not None else "none"
    req, http_info = {}, {"headers": {}}
    if cid is not None:
        req["client_id"] = cid
    if how in ("header", "both"):
        http_info["headers"]["authorization"] = "Bearer " + token
    elif how == "bare":
        http_info["headers"]["authorization"] = token
    elif how == "basic":
        http_info["headers"]["authorization"] = "Basic " + token
    if how == "body":
        req["access_token"] = token
    elif how == "both":
        req["access_token"] = a["registration_access_token"]
    elif how == "post":
        req["client_secret"] = token
    ep = w.ep("registration_read")
    p = ctx.call(ep.parse_request, req, http_info=http_info)
    out = None
    if p.ok and "error" not in p.value:
        r = ctx.call(ep.process_request, p.value)
        if r.ok and "error" not in r.value and "response_args" in r.value:
            out = r.value["response_args"]
    by_header = ctx.all(how in ("header", "both"), own(ctx, token, cid, a, b))
    by_body = False
    if ctx.params["body"]:
        body = a["registration_access_token"] if how == "both" else token
        by_body = ctx.all(how in ("body", "both"), own(ctx, body, cid, a, b))
    if out is None:
        ctx.cover("refused")
        ctx.check(ctx.neg(by_header) if how != "both" else True, "a client can not read its registration with its token")
        return
    ctx.cover("read")
    ctx.check(ctx.any(by_header, by_body), "a registration is read without the client's own registration token")
    ctx.check(out["client_id"] == cid, "another client's registration is returned")
    mine = a if out["client_id"] == a["client_id"] else b
    for k in ("client_id", "client_secret", "redirect_uris", "client_name", "registration_access_token"):
        ctx.check(out[k] == mine[k], "what is read is not what was registered")
    for k in out.keys():
        ctx.check(k in mine, "more is told than at registration")


def own(ctx, token, cid, a, b):
    if token is None or cid is None:
        return False
    return ctx.any(*[ctx.all(token == x["registration_access_token"], cid == x["client_id"]) for x in (a, b)])


HARNESSES = [
    Harness(name, read, world(methods), covers=["refused", "read"], quick={"body": body}, thorough={"body": body},
            bounds="two or three registered clients, a configured one and one with any identifier <= 20 characters; any token <= 40 and client identifier <= 20 characters; "
                   "six ways to present the token; " + text)
    for name, methods, body, text in (
        ("header", ["bearer_header"], False, "bearer header only"),
        ("default", None, False, "no method configured"),
        ("body", ["bearer_header", "bearer_body"], True, "header or body"),
        ("body_first", ["bearer_body", "bearer_header"], True, "body or header"),
    )
]
