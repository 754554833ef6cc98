"""C30: a stored and reloaded provider continues where it was."""
import copy
import json

from engine.harness_api import Harness
from harness.C04 import rreq
from harness.C20 import ask
from harness.C31 import same
from harness.common import forest
from harness.common import handed_out
from harness.common import sym_item
from harness.common import sym_now
from harness.world import NOW
from harness.world import World

CLAIMS = {"userinfo": {"email": None, "nickname": {"value": "Dina"}}, "id_token": {"name": {"essential": True}}}
REQ = {"nonce": "NONCE", "max_age": 3600, "prompt": ["login"], "claims": CLAIMS, "acr_values": ["a", "b"],
       "ui_locales": "sv en"}


class Pair:
    """A provider and a freshly started one with the same configuration (but its own random session keys)."""

    def __init__(self, oauth2=False, subs=None):
        def own(conf):
            conf["session_params"] = {"password": "another_key_0123456789ab", "salt": "another_salt_0123456789"}
            given(conf)

        def given(conf):
            if subs:
                conf["session_params"] = dict(conf["session_params"], sub_func=copy.deepcopy(subs))

        self.old = World(oauth2=oauth2, tweak=given)
        self.new = World(oauth2=oauth2, tweak=own)


def pair():
    return Pair()


def pair_subs():
    """Subject identifiers made by what the configuration names."""
    return Pair(subs={"public": {"class": "oidcop.session.manager.PublicID", "kwargs": {"salt": "a_salt_of_its_own"}},
                      "pairwise": {"class": "oidcop.session.manager.PairWiseID", "kwargs": {"salt": "another_salt"}}})


def pair2():
    return Pair(oauth2=True)


def stored(ctx, x):
    """What survives writing to a file: plain data only, nothing shared with the running provider."""
    if isinstance(x, dict):
        for k in x:
            ctx.check(isinstance(k, str), "a stored key is not a string")
        return {str(k): stored(ctx, v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [stored(ctx, v) for v in x]
    ctx.check(x is None or not hasattr(x, "__dict__") or type(x).__name__.startswith("Sym"),
              "something that is not plain data is stored")
    return x


def move(ctx, p, whole=False):
    """Store the old provider and load it into the new one."""
    if whole:
        # the configuration (which holds classes and methods) comes from where it came from in the first place
        r = ctx.call(p.old.ctx.dump, exclude_attributes=["conf"])
        ctx.check(r.ok, "the provider can not be stored")
        data = stored(ctx, r.value)
        r = ctx.call(p.new.ctx.load, data, init_args={"server_get": p.new.server.server_get,
                                                     "handler": p.new.sm.token_handler})
        p.new.sm = p.new.ctx.session_manager
    else:
        r = ctx.call(p.old.sm.dump)
        ctx.check(r.ok, "the session store can not be stored")
        data = stored(ctx, r.value)
        r = ctx.call(p.new.sm.load, data, init_args={"server_get": p.new.server.server_get,
                                                    "handler": p.new.sm.token_handler})
    ctx.check(r.ok, "what was stored can not be loaded")
    return p.new


def plain(x):
    """The content of an object of the store as plain data."""
    if x is None or isinstance(x, (bool, int, str, float)):
        return x
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, type):
        return x.__module__ + "." + x.__qualname__
    if hasattr(x, "to_dict"):
        return {"class": type(x).__name__, "is": plain(x.to_dict())}
    if hasattr(x, "parameter") and hasattr(x, "__dict__"):
        return {"class": type(x).__name__, "is": {k: plain(v) for k, v in vars(x).items() if k[:1] != "_"}}
    return x


def alike(ctx, a, b):
    """Every entry under its own key, every field the same."""
    da, db = dict(a.sm.db.items()), dict(b.sm.db.items())
    ctx.check(set(da) == set(db), "entries are lost or appear when the provider is reloaded")
    ctx.check(a.sm.key == b.sm.key and a.sm.salt == b.sm.salt, "the session keys differ after reloading")
    for k in da:
        ctx.check(same(ctx, plain(da[k]), plain(db[k])), "an entry differs after reloading")
        if hasattr(da[k], "issued_token"):
            for t, u in zip(da[k].issued_token, db[k].issued_token):
                ctx.check(t.id == u.id, "a token's identifier differs after reloading")


def build(ctx, w, extra=True):
    s1 = w.session("client_1", scope=["openid", "offline_access", "profile"], **(REQ if extra else {}))
    g1 = w.authorized(s1)
    s2 = w.session("client_2", user="babs", scope=["openid", "email"])
    g2 = w.authorized(s2)
    code = w.mint(s1, "authorization_code")
    rt = w.mint(s1, "refresh_token", based_on=code)
    at = w.mint(s1, "access_token", based_on=rt)
    idt = None if w.oauth2 else w.mint(s1, "id_token", based_on=code)
    code2 = w.mint(s2, "authorization_code")
    return s1, g1, s2, g2, code, rt, at, idt, code2


def states(ctx, p):
    """Any life-cycle state of a grant and its tokens survives, and the verdict on it stays the same for ever."""
    w = p.old
    s1, g1, s2, g2, code, rt, at, idt, code2 = build(ctx, w)
    items = [("grant", g1), ("code", code), ("refresh", rt), ("access", at)]
    k = ctx.pick("which", list(range(4)))
    n, it = items[k]
    sym_item(ctx, n, it)
    if it is not g1 and ctx.flag(n + ".limited"):
        it.usage_rules = dict(it.usage_rules, max_usage=ctx.int(n + ".max_usage", 0, 4),
                              expires_in=ctx.int(n + ".expires_in", 0, 1 << 40))
    g1.authentication_event["valid_until"] = ctx.int("authn.valid_until", 0, 1 << 40)
    g1.authentication_event["authn_time"] = ctx.int("authn.authn_time", 0, 1 << 40)
    v = move(ctx, p, whole=ctx.flag("whole_provider"))
    alike(ctx, w, v)
    h = v.sm.get(list(v.sm.decrypt_session_id(s1)))
    now = ctx.int("later", 1, 1 << 40)
    ctx.set_time(now)
    pairs = [(g1, h)] + list(zip(g1.issued_token, h.issued_token))
    for a, b in pairs:
        x, y = ctx.call(a.is_active), ctx.call(b.is_active)
        ctx.check(x.ok and y.ok, "activity can not be told after reloading")
        ctx.check(x.value == y.value, "an item changes between active and inactive by reloading")
        x, y = ctx.call(a.max_usage_reached), ctx.call(b.max_usage_reached)
        ctx.check(x.value == y.value, "a usage count is lost by reloading")
    x, y = ctx.call(g1.authentication_event.is_valid), ctx.call(h.authentication_event.is_valid)
    ctx.check(x.value == y.value, "the authentication's validity changes by reloading")
    for t in g1.issued_token:
        f = ctx.call(v.sm.find_token, s1, t.value)
        ctx.check(f.ok and f.value is not None and f.value.value == t.value and f.value.token_class == t.token_class,
                  "a token is not found under its value after reloading")
    ctx.cover("compared")


def lineage(ctx, p):
    """Revocations reach the same tokens as they would have without the reload in between."""
    w = p.old
    n = ctx.params.get("tokens", 4)
    sid = w.session("client_1", scope=["openid", "offline_access"])
    g = w.authorized(sid)
    toks, parent, prior, desc = forest(ctx, w, sid, g, n, roots=1)
    if ctx.flag("revoked_before"):
        k = ctx.pick("first", list(range(n)))
        w.sm.revoke_token(sid, toks[k].value, recursive=True)
    v = move(ctx, p)
    alike(ctx, w, v)
    i = ctx.pick("revoked", list(range(n)))
    rec = ctx.flag("recursive")
    a = ctx.call(w.sm.revoke_token, sid, toks[i].value, recursive=rec)
    b = ctx.call(v.sm.revoke_token, sid, toks[i].value, recursive=rec)
    ctx.check(a.ok and b.ok, "a token can not be revoked after reloading")
    h = v.sm.get(list(v.sm.decrypt_session_id(sid)))
    for t, u in zip(g.issued_token, h.issued_token):
        ctx.check(t.revoked == u.revoked, "a revocation reaches other tokens after reloading")
    ctx.cover("revoked")


def service(ctx, p):
    """What the endpoints answer after the reload is what they would have answered without it."""
    w = p.old
    s1, g1, s2, g2, code, rt, at, idt, code2 = build(ctx, w, extra=False)
    ctx.set_time(NOW)
    for n, it in [("grant", g1), ("code", code), ("refresh", rt), ("access", at)]:
        it.revoked = ctx.bool(n + ".revoked")
        if it is not g1:
            it.used = ctx.int(n + ".used", 0, 2)
    end = ctx.pick("ended", ["nothing", "grant", "client", "user"])
    if end == "grant":
        w.sm.revoke_grant(s1)
    elif end == "client":
        w.sm.revoke_client_session(s1)
    elif end == "user":
        w.sm.get(["diana"]).revoke()
    v = move(ctx, p, whole=ctx.flag("whole_provider"))
    what = ctx.pick("what", ["code", "refresh", "userinfo", "code2"] if not w.oauth2 else ["code", "refresh", "code2"])
    got = []
    for x in (w, v):
        if what == "userinfo":
            r, info = ask(ctx, x, at.value)
            got.append(None if info is None else dict(info))
            continue
        if what == "refresh":
            req = rreq(rt.value)
        else:
            c, n = (code, 1) if what == "code" else (code2, 2)
            req = {"grant_type": "authorization_code", "code": c.value, "client_id": "client_%d" % n,
                   "client_secret": "hemligt_for_client_%d" % n, "redirect_uri": "https://rp%d.example.com/cb" % n}
        r = ctx.call(x.ep("token").parse_request, req)
        if r.ok:
            r = ctx.call(x.ep("token").process_request, r.value)
        got.append(tuple(sorted(handed_out(r.value))) if r.ok else ())
        if r.ok and "cookie" in r.value:
            g = g1 if what != "code2" else g2
            name = x.ctx.cookie_handler.name["session"]
            for c in r.value["cookie"]:
                back = x.ctx.cookie_handler.parse_cookie(name, [c])
                ctx.check(len(back) == 1, "a cookie set by the token endpoint is not understood")
                ctx.check(g.id in json.loads(back[0]["value"])["sid"], "the cookie names another session after reloading")
    ctx.check(got[0] == got[1], "an endpoint answers differently after reloading")
    alike_after = [(t.revoked, u.revoked) for t, u in zip(g1.issued_token, v.sm.get(
        list(v.sm.decrypt_session_id(s1))).issued_token)]
    for a, b in alike_after:
        ctx.check(a == b, "token states diverge after reloading")
    ctx.cover("answered" if got[0] else "refused")


def onward(ctx, p):
    """New sessions after the reload: same subject for the same user, and beside the reloaded ones."""
    w = p.old
    s1, g1, s2, g2, code, rt, at, idt, code2 = build(ctx, w, extra=False)
    st = ctx.pick("sub_type", ["public", "pairwise"])
    before = w.sm[w.session("client_1", user="babs", sub_type=st)].sub
    moves = ctx.pick("moves", [1, 2])
    whole = ctx.flag("whole_provider")
    v = move(ctx, p, whole)
    if moves == 2:  # and back again, into a store that still holds the old state
        back = Pair.__new__(Pair)
        back.old, back.new = v, w
        v = move(ctx, back, whole)
        v.sm = w.sm if not whole else w.ctx.session_manager
    s3 = v.session("client_1", user="babs", sub_type=st)
    ctx.check(v.sm[s3].sub == before, "a user's subject identifier changes by reloading")
    ctx.check(len(v.sm.get(["babs", "client_1"]).subordinate) == 2, "earlier grants are lost")
    for s, c, n in ((s1, code, "client_1"), (s2, code2, "client_2")):
        inf = ctx.call(v.sm.get_session_info_by_token, c.value, grant=True)
        ctx.check(inf.ok and inf.value["client_id"] == n, "a code no longer leads to its session")
    if st == "public":
        r = ctx.call(v.sm.flush)
        ctx.check(r.ok and len(v.sm.db) == 0, "the store can not be emptied")
    ctx.cover("onward")


HARNESSES = [
    Harness("states", states, pair, covers=["compared"],
            bounds="a grant with four tokens in any life-cycle state (integers up to 2^40), symbolic limits, "
                   "session store or whole provider stored, judged at any later clock value"),
    Harness("states_oauth2", states, pair2, covers=["compared"], bounds="as states, OAuth2 provider"),
    Harness("lineage", lineage, pair, covers=["revoked"], quick={"tokens": 3}, thorough={"tokens": 4},
            bounds="every derivation forest of 3 (thorough: 4) tokens, revocations before and after the reload"),
    Harness("service", service, pair, covers=["answered", "refused"],
            bounds="symbolic revoked flags and usage counts; grant, client session, user session ended or not; "
                   "token endpoint and user info"),
    Harness("service_oauth2", service, pair2, covers=["answered", "refused"], bounds="as service, OAuth2 provider"),
    Harness("onward_subjects", onward, pair_subs, covers=["onward"], bounds="as onward, subject identifiers made by configured classes"),
    Harness("onward", onward, pair, covers=["onward"], bounds="one or two moves, public or pairwise subjects"),
]
