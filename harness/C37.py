"""C37: a user is authenticated only with the right password or a valid token."""
import base64
import json

from cryptojwt.jwe.jwe import JWE
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jwk.jwk import key_from_jwk_dict
from cryptojwt.jws.jws import JWS
from cryptojwt.jwt import JWT
from oidcop.user_authn.user import BasicAuthn
from oidcop.user_authn.user import NoAuthn
from oidcop.user_authn.user import SymKeyAuthn
from oidcop.user_authn.user import UserPassJinja2
from oidcop.user_authn.user import create_signed_jwt

from engine.harness_api import Harness
from harness.C17 import AUTHN
from harness.C26 import sign
from harness.world import ISS
from harness.world import NOW
from harness.world import World
from harness.world import jwks


class Pages:
    def __init__(self):
        self.token = None

    def render(self, template, token="", **kw):
        self.token = token
        self.shown = kw
        return "PAGE"


def world():
    def login(conf):
        conf["authentication"] = {"user": dict(AUTHN["user"], kwargs=dict(AUTHN["user"]["kwargs"]))}

    w = World(tweak=login)
    w.method = w.ctx.authn_broker["user"]["method"]
    w.pages = w.method.template_handler = Pages()
    # a provider that can also receive encrypted messages
    enc = [dict(k, use="enc", kid="enc") for k in jwks("op_jwks.json")["keys"] if k["kty"] == "RSA"]
    w.ctx.keyjar.import_jwks({"keys": enc}, "")
    w.ctx.keyjar.import_jwks({"keys": enc}, ISS)
    return w


def table(ctx):
    """Up to two users with arbitrary passwords."""
    users = ["diana", "babs"][:ctx.pick("users", [0, 1, 2])]
    return {u: ctx.str("password_of_" + u, 8) for u in users}


def matching(ctx, db, user, pwd):
    return ctx.any(*[ctx.all(user == u, pwd == p) for u, p in db.items()]) if db else False


def password(ctx, w):
    db = table(ctx)
    m = w.method
    m.user_db = db
    user = ctx.str("username", 8)
    pwd = ctx.str("password", 8)
    kw = {"username": user, "password": pwd}
    r = ctx.call(m.verify, **kw)
    right = matching(ctx, db, user, pwd)
    if r.ok and r.value:
        ctx.check(right, "a user is authenticated without the right password")
        ctx.check(r.value == user, "another user is authenticated than the one whose password was given")
        ctx.cover("in")
    else:
        ctx.check(ctx.neg(right), "the right password is refused")
        ctx.cover("out")


def basic(ctx, w):
    """HTTP Basic, with and without a session cookie, that may be another user's."""
    db = {"diana": ctx.str("password_of_diana", 8), "babs": ctx.str("password_of_babs", 8)}
    m = BasicAuthn(pwd=db, server_get=w.server.server_get)
    user = ctx.pick("username", ["diana", "babs", "nobody", ""])
    pwd = ctx.str("password", 8)
    sids = {u: w.session("client_1", user=u) for u in ("diana", "babs")}
    cookie = ctx.pick("cookie", [None, "diana", "babs"])
    cookies = [{"value": json.dumps({"sid": sids[cookie]}), "type": "", "timestamp": NOW}] if cookie else None
    prefix = ctx.pick("prefix", ["Basic ", ""])
    header = base64.b64encode((user + ":" + pwd).encode())
    r = ctx.call(m.authenticated_as, "client_1", cookies, authorization=prefix + header.decode())
    right = matching(ctx, db, user, pwd)
    if r.ok and r.value[0]:
        ctx.check(right, "a user is authenticated without the right password")
        ctx.check(r.value[0]["uid"] == user, "another user is authenticated than the one whose password was given")
        if "sid" in r.value[0]:
            ctx.check(w.sm.decrypt_session_id(r.value[0]["sid"])[0] == user, "the session of another user is taken up")
            ctx.cover("session")
        ctx.cover("in")
    else:
        ctx.check(ctx.neg(right), "the right password is refused")
        ctx.cover("out")


def spelling(ctx, w):
    """Passwords of a few characters that are written nearly like the stored one."""
    stored = ctx.pick("stored", ["kr", "Kr ", "%6b", "k+r"])
    given = ctx.chars("given", len(stored) + (2 if ctx.params.get("short", True) else 4), minlen=max(1, len(stored) - 1), alphabet=(32, 126))
    db = {"diana": stored, "babs": "other"}
    if ctx.flag("form"):
        w.method.user_db = db
        r = ctx.call(w.method.verify, username="diana", password=given)
        uid = r.value if r.ok else None
        ctx.cover("form")
    else:
        m = BasicAuthn(pwd=db, server_get=w.server.server_get)
        header = base64.b64encode(("diana:" + given).encode())
        r = ctx.call(m.authenticated_as, "client_1", None, authorization="Basic " + header.decode())
        uid = r.value[0] and r.value[0]["uid"] if r.ok else None
        ctx.cover("basic")
    if uid:
        ctx.check(given == stored, "a password that is not exactly the stored one is accepted")
        ctx.check(uid == "diana", "another user is authenticated than the one whose password was given")
        ctx.cover("in")
    else:
        ctx.check(given != stored, "the right password is refused")
        ctx.cover("out")


SHOWN = ["policy", "tos", "logo"]


def pages(ctx, w):
    """What a login page shows is what came with this request, or is configured; nothing of an earlier page."""
    ctx.set_time(NOW)
    configured = {k: w.method.kwargs.get(k + "_uri", "") for k in SHOWN}

    def show(who):
        given = {k + "_uri": ctx.str("%s.%s" % (who, k), 12, minlen=1) for k in SHOWN if ctx.flag("%s.has_%s" % (who, k))}
        r = ctx.call(w.method, query="q_" + who, authn_class_ref="a", return_uri="https://rp.example.com/cb", **given)
        ctx.check(r.ok and w.pages.token, "the login page can not be shown")
        return given, w.pages.shown

    show("first")
    given, shown = show("second")
    for k in SHOWN:
        if k + "_uri" in given:
            ctx.check(shown[k + "_uri"] == given[k + "_uri"], "the login page does not show the client's %s" % k)
            ctx.cover("given")
        else:
            ctx.check(shown.get(k + "_uri", "") == configured[k], "the login page shows the %s of another client" % k)
            ctx.check(not shown.get(k + "_label"), "the login page labels the %s of another client" % k)
            ctx.cover("not_given")


def others(ctx, w):
    """Methods that know the user otherwise: a cookie can not make another user of him."""
    sids = {u: w.session("client_1", user=u) for u in ("diana", "babs")}
    other_client = w.session("client_2", user="diana")
    cookie = ctx.pick("cookie", [None, "diana", "babs", "client_2"])
    sid = other_client if cookie == "client_2" else sids.get(cookie)
    stamp = ctx.int("timestamp", 1, 1 << 40)
    cookies = [{"value": json.dumps({"sid": sid}), "type": "", "timestamp": stamp}] if sid else None
    now = ctx.int("now", 1, 1 << 40)
    ctx.set_time(now)
    how = ctx.pick("method", ["none", "key", "cookie"])
    user = ctx.pick("user", ["diana", "babs"])
    if how == "none":
        r = ctx.call(NoAuthn(user, server_get=w.server.server_get).authenticated_as, "client_1", cookies)
        ctx.check(r.ok and r.value[0]["uid"] == user, "a cookie makes another user of the one the method knows")
    elif how == "key":
        from cryptography.hazmat.primitives.ciphers.aead import AESGCM

        key = ctx.pick("key", [b"0" * 32, b"1" * 32])
        msg = AESGCM(key).encrypt(b"iviviviviviv", user.encode(), None)
        ctx.assume(b":" not in msg)
        m = SymKeyAuthn(symkey=b"0" * 32, ttl=600, server_get=w.server.server_get)
        r = ctx.call(m.authenticated_as, "client_1", cookies, authorization=base64.b64encode(msg + b":" + b"iviviviviviv"))
        if key != b"0" * 32:
            ctx.check(not r.ok, "a message made with another key authenticates")
        else:
            ctx.check(r.ok, "a good message is refused")
            u = r.value[0]["uid"]
            ctx.check((u if isinstance(u, str) else u.decode()) == user, "a cookie makes another user of the one the method knows")
    else:
        ma = ctx.int("max_age", 0, 1 << 40)
        ctx.assume(stamp <= now)
        r = ctx.call(w.method.authenticated_as, "client_1", cookies, max_age=ma)
        ctx.check(r.ok, "a cookie can not be looked at")
        if r.value[0]:
            ctx.check(cookie in ("diana", "babs") and r.value[0]["uid"] == cookie, "a user without a session is authenticated")
            ctx.check(ctx.any(ma == 0, now <= stamp + ma), "a session older than the maximum age is taken up")
        else:
            ctx.check(ctx.any(cookie in (None, "client_2"), ctx.all(ma != 0, now > stamp + ma)), "a good session is not taken up")
    ctx.cover(how)


FORGED = ["by_client", "by_client_as_op", "unsigned", "mac_client", "mac_client_as_op", "encrypted", "encrypted_nested", "plain", "payload", "signature"]


def state(ctx, w):
    """What the login page carries comes back unchanged; nothing else comes back."""
    ctx.set_time(NOW)
    query = ctx.str("query", 20)
    acr = ctx.str("acr", 8)
    ret = ctx.str("return_uri", 12)
    r = ctx.call(w.method, query=query, authn_class_ref=acr, return_uri=ret, policy_uri="https://rp.example.com/p")
    ctx.check(r.ok and w.pages.token, "the login page can not be shown")
    token = w.pages.token
    if ctx.flag("genuine"):
        t = ctx.call(w.method.unpack_token, token)
        ctx.check(t.ok, "the provider's own state is refused")
        ctx.check(ctx.all(t.value["query"] == query, t.value["authn_class_ref"] == acr, t.value["return_uri"] == ret),
                  "the state carried through the login page is changed")
        ctx.check(t.value["iss"] == ISS, "the state is not the provider's")
        ctx.cover("genuine")
        return
    which = ctx.pick("forged", FORGED)
    claims = {"query": query, "authn_class_ref": acr, "return_uri": ret, "iss": ISS, "iat": NOW}
    if which == "by_client":
        v = sign(dict(claims, iss="client_1"), "client1_jwks.json", "RS256", "RSA")
    elif which == "by_client_as_op":
        v = sign(claims, "client1_jwks.json", "RS256", "RSA")
    elif which == "unsigned":
        v = JWS(json.dumps(claims), alg="none").sign_compact()
    elif which in ("mac_client", "mac_client_as_op"):
        iss = "client_1" if which == "mac_client" else ISS
        v = JWS(json.dumps(dict(claims, iss=iss)), alg="HS256").sign_compact(keys=[SYMKey(key=w.ctx.cdb["client_1"]["client_secret"])])
    elif which in ("encrypted", "encrypted_nested", "plain"):
        # no symbolic content here: the encryption is done for real
        claims = {"query": "q", "authn_class_ref": "a", "return_uri": "r", "iss": ISS, "iat": NOW}
        if which == "plain":
            v = json.dumps(claims)
        else:
            pub = w.ctx.keyjar.get("enc", "RSA", "")
            inner = json.dumps(claims)
            if which == "encrypted_nested":
                inner = sign(dict(claims, iss="client_1"), "client1_jwks.json", "RS256", "RSA")
            args = {"cty": "JWT"} if which == "encrypted_nested" else {}
            v = JWE(inner.encode(), alg="RSA-OAEP", enc="A128CBC-HS256", **args).encrypt(keys=pub)
    else:
        other = create_signed_jwt(ISS, w.ctx.keyjar, query="other", authn_class_ref="a", return_uri="r")
        genuine = create_signed_jwt(ISS, w.ctx.keyjar, query="mine", authn_class_ref="a", return_uri="r")
        a, b = genuine.split("."), other.split(".")
        v = ".".join([a[0], b[1], a[2]]) if which == "payload" else ".".join([a[0], a[1], b[2]])
    t = ctx.call(w.method.unpack_token, v)
    ctx.check(not t.ok or not t.value, "state that this provider did not sign is accepted")
    ctx.cover("forged")


HARNESSES = [
    Harness("password", password, world, covers=["in", "out"], bounds="up to two users, arbitrary user name and passwords up to 8 characters"),
    Harness("basic", basic, world, covers=["in", "out", "session"], bounds="two users with arbitrary passwords, any password, four user names, cookie of either user or none"),
    Harness("spelling", spelling, world, covers=["in", "out", "form", "basic"], thorough={"short": False},
            bounds="four stored passwords, any given one of printable ASCII characters, from one shorter to two (thorough: four) longer"),
    Harness("pages", pages, world, covers=["given", "not_given"], bounds="two pages, each of three URIs present or not, arbitrary values up to 12 characters"),
    Harness("others", others, world, covers=["none", "key", "cookie"], bounds="three methods, cookies of either user and client, any clock, cookie time and maximum age"),
    Harness("state", state, world, covers=["genuine", "forged"], bounds="arbitrary query, class and URI; ten kinds of forgery"),
]
