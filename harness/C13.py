"""C13: only registered redirect URIs are ever used."""
from urllib.parse import unquote_plus

from engine.harness_api import Harness
from harness.common import all_tokens
from harness.common import outcome
from harness.world import World
from harness.world import oauth2_world
from harness.world import oidc_world

from oidcop.oauth2.authorization import get_uri
from oidcop.oauth2.authorization import verify_uri

HOST = "https://rp1.example.com"
REG = {
    "plain": [(HOST + "/cb", None)],
    "query": [(HOST + "/cb", {"foo": ["bar"]})],
    "two": [(HOST + "/cb", {"foo": ["bar"]}), (HOST + "/cb", {"foo": ["ba"]})],
    "mixed": [(HOST + "/cb", {"foo": ["bar"]}), (HOST + "/cb", {})],
    "multi": [(HOST + "/cb", {"a": ["b", "f"], "f": [""]})],
}
ALPHA = "?#&=%/.+abfor126@:\t "


def parse_query(q):
    """The parameters of a query string, in any order, blanks kept."""
    out = []
    for part in q.split("&"):
        if part == "":
            continue
        k, _, v = part.partition("=")
        out.append((unquote_plus(k), unquote_plus(v)))
    return out


def same(ctx, a, b):
    """The same multiset of name/value pairs."""
    if len(a) != len(b):
        return False
    if not a:
        return True
    alts = []
    for i in range(len(b)):
        alts.append(ctx.all(ctx.eq(a[0][0], b[i][0]), ctx.eq(a[0][1], b[i][1]), same(ctx, a[1:], b[:i] + b[i + 1:])))
    return ctx.any(*alts)


def registered(ctx, uri, reg):
    """The specification: the URI is one of the registered ones."""
    if "#" in uri:
        return False
    base, _, q = uri.partition("?")
    pairs = parse_query(q)
    alts = []
    for rb, rq in reg:
        want = [(k, v) for k, vs in (rq or {}).items() for v in vs]
        alts.append(ctx.all(ctx.eq(base, rb), same(ctx, pairs, want)))
    return ctx.any(*alts)


def shapes(ctx, n):
    shape = ctx.pick("shape", ["suffix", "query", "query2", "host", "path", "scheme", "before"])
    x = ctx.chars("x", n, 0, alphabet=ALPHA)
    if shape == "suffix":
        return HOST + "/cb" + x
    if shape == "query":
        return HOST + "/cb?foo=ba" + x
    if shape == "query2":
        return HOST + "/cb?foo=bar&" + x
    if shape == "host":
        return HOST + x + "/cb"
    if shape == "path":
        return HOST + "/" + x + "cb"
    if shape == "scheme":
        return "http" + x + "://rp1.example.com/cb"
    return x + HOST + "/cb?foo=bar"


def match(ctx, w):
    """verify_uri on URIs around the registered ones."""
    name = ctx.pick("registered", list(REG))
    if name == "multi":
        # the values of a parameter in either order, with something added
        x = ctx.chars("x", ctx.params.get("n", 2), 0, alphabet=ALPHA)
        uri = HOST + ctx.pick("order", ["/cb?a=b&a=f&f=", "/cb?f&a=f&a=b", "/cb?a=b&f=", "/cb?a=b&a=b&f="]) + x
    else:
        uri = shapes(ctx, ctx.params.get("n", 2))
    w.ctx.cdb["client_1"]["redirect_uris"] = REG[name]
    r = ctx.call(verify_uri, w.ctx, {"client_id": "client_1", "redirect_uri": uri}, "redirect_uri")
    ctx.note(r.ok)
    if r.ok:
        ctx.cover("accepted")
        ctx.check(registered(ctx, uri, REG[name]), "a redirect URI that is not registered is accepted")
    else:
        ctx.cover("refused")
        ctx.check(ctx.neg(registered(ctx, uri, REG[name])), "a registered redirect URI is refused")


def whole(ctx, w):
    """The authorization endpoint as a whole, with an arbitrary redirect URI string."""
    uri = ctx.pick("uri", [None, HOST + "/cb", HOST + "/other?k=v", "near", "far"])
    if uri == "near":
        uri = HOST + "/cb" + ctx.chars("x", 2, 1, alphabet=ALPHA)
    elif uri == "far":
        uri = ctx.chars("x", 3, 0, alphabet="ah:/?")
    n_reg = ctx.pick("registered", [0, 1, 2])
    regs = [(HOST + "/cb", None), (HOST + "/other", {"k": ["v"]})][:n_reg]
    w.ctx.cdb["client_1"]["redirect_uris"] = regs
    if n_reg == 0:
        del w.ctx.cdb["client_1"]["redirect_uris"]
    req = {"client_id": "client_1", "response_type": "code", "scope": ["openid"], "state": "S"}
    if uri is not None:
        req["redirect_uri"] = uri
    ep = w.ep("authorization")
    if uri is not None and uri == "":
        uri = None  # a parameter without a value counts as omitted
    n0 = len(all_tokens(w.sm))
    p = ctx.call(ep.parse_request, req)
    if not p.ok or "error" in p.value:
        ctx.cover("refused")
        if uri is not None:
            ctx.check(ctx.neg(registered(ctx, uri, regs)), "a registered redirect URI is refused")
        elif w.oauth2:
            ctx.check(n_reg != 1, "the only registered redirect URI is not used")
        return
    r = ctx.call(ep.process_request, p.value)
    ctx.note(outcome(ctx, r))
    if not r.ok or "return_uri" not in r.value:
        ctx.check(len(all_tokens(w.sm)) == n0, "tokens without an answer")
        return
    ctx.cover("answered")
    to = r.value["return_uri"]
    if uri is None:
        ctx.check(n_reg == 1, "an answer although the redirect URI is not determined")
        ctx.check(to == HOST + "/cb", "the answer goes to another URI than the registered one")
    else:
        ctx.check(to == uri, "the answer goes to another URI than the requested one")
        ctx.check(registered(ctx, uri, regs), "an answer to an unregistered URI")


def default(ctx, w):
    """get_uri: which URI is used."""
    n = ctx.pick("n", [0, 1, 2])
    q = ctx.flag("query")
    specs = [(ctx.str("base%d" % i, 20, 1), {"a": [ctx.str("v%d" % i, 4, 1, lo="a", hi="z")]} if q else None) for i in range(n)]
    w.ctx.cdb["client_1"]["redirect_uris"] = specs
    r = ctx.call(get_uri, w.ctx, {"client_id": "client_1"}, "redirect_uri")
    ctx.check(r.ok == (n == 1), "a default redirect URI although it is not determined, or none although it is")
    if r.ok:
        ctx.cover("default")
        if q:
            ctx.check(r.value.startswith(specs[0][0] + "?a="), "the default is not the registered URI")
        else:
            ctx.check(r.value == specs[0][0], "the default is not the registered URI")
    u = ctx.call(get_uri, w.ctx, {"client_id": "nobody"}, "redirect_uri")
    ctx.check(not u.ok, "a redirect URI for an unknown client")


HARNESSES = [
    Harness("match", match, oauth2_world, covers=["accepted", "refused"], quick={"n": 3}, thorough={"n": 4},
            bounds="URIs that differ from registered ones by up to n characters over '%s' in any component; five registrations" % ALPHA),
    Harness("oidc", whole, oidc_world, covers=["answered", "refused"], bounds="zero to two registered URIs, given or absent in the request"),
    Harness("oauth2", whole, oauth2_world, covers=["answered", "refused"], bounds="as oidc"),
    Harness("default", default, oidc_world, covers=["default"], bounds="zero to two registered URIs with arbitrary base and query"),
]
