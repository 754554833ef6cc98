"""C10: session identifiers and opaque tokens decode to what was encoded."""
from engine.harness_api import Harness
from harness.C20 import opaque_world
from harness.world import NOW

from oidcop.session.database import Database
from oidcop.token import DefaultToken
from oidcop.util import Crypt
from oidcop.util import lv_pack
from oidcop.util import lv_unpack

CLASSES = ["authorization_code", "access_token", "refresh_token", "id_token"]
ALPHA = "1 :;%a\n"
WIDE = "1:; \u00e4\u20ac\U0001f600"


def setup():
    return None


def same(ctx, got, want):
    return ctx.all(len(got) == len(want), *[ctx.eq(a, b) for a, b in zip(got, want)])


def pack(ctx, w):
    k = ctx.pick("parts", [0, 1, 2, 3])
    alpha = ctx.pick("alphabet", [ALPHA, WIDE])
    parts = [ctx.chars("p%d" % i, ctx.params["n"], 0, alphabet=alpha) for i in range(k)]
    r = ctx.call(lv_unpack, lv_pack(*parts))
    ctx.check(r.ok, "packed values can not be unpacked")
    ctx.check(same(ctx, r.value, parts), "unpacking gives something else than was packed")
    ctx.cover("packed")


def digits(ctx, w):
    """Lengths with several digits."""
    n = ctx.pick("len", [9, 10, 11, 99, 100, 101])
    parts = ["x" * n + ctx.chars("p", 1, 1, alphabet=ALPHA), ctx.chars("q", 2, 0, alphabet=ALPHA)]
    r = ctx.call(lv_unpack, lv_pack(*parts))
    ctx.check(r.ok and same(ctx, r.value, parts), "unpacking gives something else than was packed")
    ctx.cover("packed")


def sid(ctx, w):
    db = Database(key="secret key")
    k = ctx.pick("parts", [1, 2, 3])
    ids = [ctx.chars("id%d" % i, ctx.params["n"] if k < 3 else 1, 1, alphabet=";% a3B") for i in range(k)]
    key = db.encrypted_session_id(*ids)
    r = ctx.call(db.decrypt_session_id, key)
    ctx.check(r.ok, "a session identifier can not be decrypted")
    ctx.check(same(ctx, r.value, ids), "a session identifier decrypts to another session")
    other = ctx.call(Database(key="another key").decrypt_session_id, key)
    ctx.check(not other.ok, "a session identifier is understood with another key")
    ctx.check(key != db.encrypted_session_id(*ids), "session identifiers of the same session can be correlated")
    ctx.cover("decrypted")


def wide(ctx, w):
    """Identifiers with characters outside ASCII."""
    db = Database(key="secret key")
    ids = [ctx.chars("id%d" % i, n, 1, alphabet=WIDE) for i, n in enumerate([ctx.params["n"], 1, 1])]
    r = ctx.call(db.decrypt_session_id, db.encrypted_session_id(*ids))
    ctx.check(r.ok and same(ctx, r.value, ids), "a session identifier decrypts to another session")
    h = DefaultToken("pw1", token_class="access_token", lifetime=300)
    r = ctx.call(h.info, h(session_id=ids[0], token_class="access_token"))
    ctx.check(r.ok and ctx.eq(r.value["sid"], ids[0]), "a token decodes to another session")
    ctx.cover("decrypted")


def opaque(ctx, w):
    """An opaque token decodes to its session and class under its own handler only."""
    ctx.set_time(NOW)
    cls = ctx.pick("class", CLASSES)
    rd = ctx.pick("reader", CLASSES)
    pw = ctx.pick("password", ["same", "other"])
    given = ctx.flag("class_given")
    life = ctx.pick("lifetime", [-1, 0, 300, 3600000])
    h = DefaultToken("pw1", token_class=cls, lifetime=life)
    s = ctx.chars("sid", ctx.params["n"], 0, alphabet=ALPHA)
    t = h(session_id=s, token_class=cls) if given else h(session_id=s)
    r = ctx.call(DefaultToken("pw1" if pw == "same" else "pw2", token_class=rd).info, t)
    if pw == "other" or rd != cls:
        ctx.cover("refused")
        ctx.check(not r.ok, "a token is understood by a handler that did not issue it")
        return
    ctx.cover("read")
    ctx.check(r.ok, "an issued token is not understood")
    ctx.check(ctx.eq(r.value["sid"], s), "a token decodes to another session")
    ctx.check(r.value["token_class"] == cls, "a token decodes to another class")
    late = ctx.int("later", NOW, 1 << 40)
    e = ctx.call(h.is_expired, t, late)
    ctx.check(e.ok and ctx.eq(e.value, ctx.all(life >= 0, late > NOW + life)), "a token expires at another time than its lifetime says")


def long_sid(ctx, w):
    """Long session identifiers."""
    h = DefaultToken("pw1", token_class=ctx.pick("class", CLASSES))
    s = ctx.chars("sid", ctx.params["n"], ctx.params["n"] - 2, alphabet=ALPHA)
    a, b = h(session_id=s), h(session_id=s)
    ctx.check(ctx.neg(ctx.eq(a, b)), "two tokens are the same")
    r = ctx.call(h.info, a)
    ctx.check(r.ok and ctx.eq(r.value["sid"], s), "a token decodes to another session")
    ctx.cover("read")


def crypt(ctx, w):
    """The encryption under both, for texts that do not end with a space."""
    c = Crypt("password")
    t = ctx.chars("text", ctx.params["n"], 0, alphabet="a \n1") + ctx.pick("tail", ["x", "x" * 15, "x" * 16, "x" * 17])
    r = ctx.call(c.decrypt, c.encrypt(t))
    ctx.check(r.ok and ctx.eq(r.value, t), "decryption gives another text")
    r = ctx.call(Crypt("another").decrypt, c.encrypt(t))
    ctx.check(not r.ok, "decryption with another key")
    ctx.cover("done")


def minted(ctx, w):
    """Tokens minted in a server lead back to their session."""
    ctx.set_time(NOW)
    user = ctx.chars("user", ctx.params["n"], 1, alphabet=";% a")
    client = ctx.pick("client", ["client_1", "client_2"])
    other = w.session("client_1", user="diana")
    s = w.session(client, user=user)
    w.authorized(s)
    code = w.mint(s, "authorization_code")
    kind = ctx.pick("kind", ["authorization_code", "access_token", "refresh_token"])
    tok = code if kind == "authorization_code" else w.mint(s, kind, based_on=code)
    r = ctx.call(w.sm.get_session_info_by_token, tok.value, grant=True)
    ctx.check(r.ok, "an issued token leads nowhere")
    ctx.check(ctx.all(ctx.eq(r.value["user_id"], user), ctx.eq(r.value["client_id"], client)), "a token leads to another session")
    ctx.check(r.value["grant"] is w.sm[s], "a token leads to another grant")
    ctx.check(w.sm.find_token(r.value["session_id"], tok.value) is tok, "a token is not found")
    ctx.check(w.sm.token_handler.info(tok.value)["token_class"] == kind, "a token decodes to another class")
    ctx.cover(kind)


HARNESSES = [
    Harness("pack", pack, setup, covers=["packed"], quick={"n": 3}, thorough={"n": 5}, bounds="up to three values of up to n characters over digits, colon, space, newline, ..."),
    Harness("digits", digits, setup, covers=["packed"], bounds="lengths around powers of ten"),
    Harness("sid", sid, setup, covers=["decrypted"], quick={"n": 2}, thorough={"n": 4}, bounds="one to three identifiers of up to n characters over ';% a3B' (one when there are three)"),
    Harness("wide", wide, setup, covers=["decrypted"], quick={"n": 1}, thorough={"n": 2},
            bounds="identifiers with characters of two, three and four bytes in UTF-8"),
    Harness("opaque", opaque, setup, covers=["read", "refused"], quick={"n": 2}, thorough={"n": 4},
            bounds="all pairs of issuing and reading class, four lifetimes, any clock, session identifiers up to n characters"),
    Harness("long_sid", long_sid, setup, covers=["read"], quick={"n": 64}, thorough={"n": 200}, bounds="session identifiers of about n characters"),
    Harness("crypt", crypt, setup, covers=["done"], quick={"n": 3}, thorough={"n": 6}, bounds="texts around the block size"),
    Harness("minted", minted, opaque_world, covers=["authorization_code", "access_token", "refresh_token"], quick={"n": 2}, thorough={"n": 3},
            bounds="user identifiers up to n characters, two clients, three kinds of token"),
]
