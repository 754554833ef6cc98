"""C27: logging out everywhere notifies every client of the user and ends all and only their sessions."""
from html import unescape
from urllib.parse import parse_qs
from urllib.parse import urlsplit

from cryptojwt.jws.jws import factory

from engine.harness_api import Harness
from harness.C20 import ask
from harness.world import ISS
from harness.world import World

CLIENTS = ["client_1", "client_2", "client_3"]


def world():
    w = World()
    w.ctx.cdb["client_3"] = dict(w.ctx.cdb["client_1"], client_secret="hemligt_for_client_3",
                                 redirect_uris=[("https://rp3.example.com/cb", None)])
    return w


class Resp:
    def __init__(self, code):
        self.status_code = code


class Recorder:
    """Stands in for the HTTP client: records what would be sent."""

    def __init__(self, failing):
        self.failing = failing
        self.calls = []

    def post(self, url, data=None, headers=None, **kw):
        self.calls.append((url, data))
        if self.failing == url:
            raise ConnectionError("unreachable")
        return Resp(200)


def everywhere(ctx, w):
    kinds = {}
    n = ctx.params.get("clients", 2)
    for c in CLIENTS[:n]:
        kinds[c] = ctx.pick("uri_" + c, ["none", "back", "front", "front_sid"])
        info = w.ctx.cdb[c]
        if kinds[c] == "back":
            info["backchannel_logout_uri"] = "https://%s.example.com/bc" % c
        elif kinds[c] != "none":
            info["frontchannel_logout_uri"] = "https://%s.example.com/fc" % c
            info["frontchannel_logout_session_required"] = kinds[c] == "front_sid"
    extra = ctx.flag("second_grant")  # a second session with the first client, or not
    plan = [("diana", c) for c in CLIENTS[:n] if c == "client_1" or ctx.flag("session_" + c)]
    if extra:
        plan.append(("diana", "client_1"))
    plan.append(("babs", "client_1"))
    made = []
    idt_first = ctx.flag("first_got_id_token") if extra else True
    for i, (u, c) in enumerate(plan):
        sid = w.session(c, user=u, scope=["openid"])
        g = w.authorized(sid)
        code = w.mint(sid, "authorization_code")
        at = w.mint(sid, "access_token", based_on=code)
        if i > 0 or idt_first:
            w.mint(sid, "id_token", based_on=code)
        made.append((u, c, sid, g, at))
    failing = ctx.pick("failing", ["", "client_1"])
    http = Recorder("https://%s.example.com/bc" % failing)
    w.ctx.httpc = http
    start = ctx.pick("from", list(range(len(made) - 1)))
    r = ctx.call(w.ep("session").do_verified_logout, made[start][2], alla=True)
    ctx.check(r.ok, "logging out everywhere fails")
    frames = list(r.value) if r.ok else []
    told = {}
    for url, data in http.calls:
        c = urlsplit(url).hostname.split(".")[0]
        ctx.check(url == "https://%s.example.com/bc" % c and kinds.get(c) == "back", "a logout token goes to a wrong place")
        ctx.check(data.startswith("logout_token="), "a back-channel logout without token")
        p = factory(data[len("logout_token="):]).jwt.payload()
        ctx.check(p["iss"] == ISS and list(p["aud"]) == [c], "a logout token names another issuer or client")
        ctx.check("http://schemas.openid.net/event/backchannel-logout" in p["events"], "not a logout token")
        u2, c2, g2 = w.sm.decrypt_session_id(p["sid"])
        ctx.check((u2, c2) == ("diana", c), "a logout token names another session")
        told[c] = told.get(c, 0) + 1
    for f in frames:
        src = unescape(f.split('"')[1])
        c = urlsplit(src).hostname.split(".")[0]
        ctx.check(src.startswith("https://%s.example.com/fc" % c) and kinds.get(c, "").startswith("front"),
                  "a logout frame goes to a wrong place")
        q = parse_qs(urlsplit(src).query)
        if kinds[c] == "front_sid":
            u2, c2, g2 = w.sm.decrypt_session_id(q["sid"][0])
            ctx.check(q["iss"] == [ISS] and (u2, c2) == ("diana", c), "a logout frame names another session")
        else:
            ctx.check("sid" not in q, "a logout frame carries a session that was not asked for")
        told[c] = told.get(c, 0) + 1
    have = [c for u, c, _, _, _ in made if u == "diana"]
    for c in CLIENTS[:n]:
        want = c in have and kinds[c] != "none"
        ctx.check(told.get(c, 0) == (1 if want else 0), "a client is not notified, or one is that has no session")
    for u, c, sid, g, at in made:
        alive = ask(ctx, w, at.value)[1] is not None
        ctx.check(alive == (u == "babs"), "a session survives, or another user's session ends")
        ctx.check(w.sm.client_session_is_revoked(sid) == (u == "diana"), "client session state wrong after logout")
    ctx.cover("told" if told else "silent")


def single(ctx, w):
    """Logging out of one client notifies that client and ends only that client's sessions."""
    kinds = {}
    for c in CLIENTS[:2]:
        kinds[c] = ctx.pick("uri_" + c, ["none", "back", "front", "front_sid"])
        info = w.ctx.cdb[c]
        if kinds[c] == "back":
            info["backchannel_logout_uri"] = "https://%s.example.com/bc" % c
        elif kinds[c] != "none":
            info["frontchannel_logout_uri"] = "https://%s.example.com/fc?x=1" % c
            info["frontchannel_logout_session_required"] = kinds[c] == "front_sid"
    made = []
    for u, c in (("diana", "client_1"), ("diana", "client_2"), ("babs", "client_1")):
        sid = w.session(c, user=u, scope=["openid"])
        g = w.authorized(sid)
        code = w.mint(sid, "authorization_code")
        made.append((u, c, sid, g, w.mint(sid, "access_token", based_on=code)))
    http = Recorder("")
    w.ctx.httpc = http
    start = ctx.pick("from", [0, 1, 2])
    user, client, sid0 = made[start][:3]
    r = ctx.call(w.ep("session").do_verified_logout, sid0, alla=False)
    ctx.check(r.ok, "logging out of one client fails")
    frames = list(r.value) if r.ok else []
    ctx.check(len(http.calls) == (1 if kinds[client] == "back" else 0), "back-channel logout missing or in excess")
    ctx.check(len(frames) == (1 if kinds[client].startswith("front") else 0), "front-channel logout missing or in excess")
    for url, data in http.calls:
        ctx.check(url == "https://%s.example.com/bc" % client, "a logout token goes to a wrong place")
        p = factory(data[len("logout_token="):]).jwt.payload()
        ctx.check(list(p["aud"]) == [client] and p["sid"] == sid0, "a logout token names another session")
    for f in frames:
        src = unescape(f.split('"')[1])
        q = parse_qs(urlsplit(src).query)
        ctx.check(src.startswith("https://%s.example.com/fc?" % client) and q["x"] == ["1"], "a logout frame goes to a wrong place")
        if kinds[client] == "front_sid":
            ctx.check(q["sid"] == [sid0] and q["iss"] == [ISS], "a logout frame names another session")
    for u, c, sid, g, at in made:
        alive = ask(ctx, w, at.value)[1] is not None
        ctx.check(alive == ((u, c) != (user, client)), "a session survives, or another session ends")
    ctx.cover("done")


HARNESSES = [
    Harness("everywhere", everywhere, world, covers=["told", "silent"], quick={"clients": 2}, thorough={"clients": 3},
            bounds="up to `clients` clients with each kind of logout URI or none, every subset of sessions, a second session, an unreachable client"),
    Harness("single", single, world, covers=["done"], bounds="two clients with each kind of URI, two users"),
]
