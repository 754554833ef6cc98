"""C29: subject identifiers."""
from oidcop.session.manager import PairWiseID
from oidcop.session.manager import PublicID
from oidcop.session.manager import ephemeral_id
from oidcop.session.manager import pairwise_id
from oidcop.session.manager import public_id

from engine.harness_api import Harness
from harness.C14 import answer
from harness.C22 import decode
from harness.world import NOW
from harness.world import oauth2_world
from harness.world import oidc_world
from harness.world import World


def functions(ctx, w):
    """The functions, for any users, sectors and salts."""
    n = ctx.params.get("len", 12)
    u1, u2 = ctx.str("user1", n, 1), ctx.str("user2", n, 1)
    s1, s2 = ctx.str("sector1", n), ctx.str("sector2", n)
    salt = ctx.str("salt", n)
    kind = ctx.pick("kind", ["public_id", "pairwise_id", "PublicID", "PairWiseID", "ephemeral_id"])
    if kind == "ephemeral_id":
        ctx.cover("ephemeral")
        ctx.check(ephemeral_id(u1, salt=salt, sector_identifier=s1) != ephemeral_id(u1, salt=salt, sector_identifier=s1),
                  "an ephemeral identifier is used twice")
        return
    if kind in ("PublicID", "PairWiseID"):
        cls = PublicID if kind == "PublicID" else PairWiseID
        f = cls(salt=salt if ctx.flag("with_salt") else "")
    else:
        f = public_id if kind == "public_id" else pairwise_id
    a = f(u1, salt=salt, sector_identifier=s1)
    again = f(u1, salt=salt, sector_identifier=s1)
    other_user = f(u2, salt=salt, sector_identifier=s1)
    other_sector = f(u1, salt=salt, sector_identifier=s2)
    ctx.check(a == again, "the identifier of a user changes")
    if ctx.flag("same_user"):
        ctx.assume(u1 == u2)
        ctx.check(a == other_user, "a user has two identifiers in one sector")
    else:
        ctx.assume(u1 != u2)
        ctx.check(a != other_user, "two users have one identifier")
    if kind in ("public_id", "PublicID"):
        ctx.cover("public")
        ctx.check(a == other_sector, "a public identifier depends on the sector")
        return
    ctx.cover("pairwise")
    if ctx.flag("same_sector"):
        ctx.assume(s1 == s2)
        ctx.check(a == other_sector, "a pairwise identifier differs within a sector")
    else:
        ctx.assume(s1 != s2)
        ctx.check(a != other_sector, "a pairwise identifier is the same in two sectors")


def sessions(ctx, w):
    """Sessions created through the session manager: any sector, types in any order."""
    ctx.set_time(NOW)
    made = []
    for i in range(ctx.params.get("sessions", 3)):
        user = ctx.pick("user%d" % i, ["diana", "babs"]) if i else "diana"
        client = ctx.pick("client%d" % i, ["client_1", "client_2"]) if i else "client_1"
        kind = ctx.pick("type%d" % i, ["public", "pairwise", "ephemeral"])
        extra = {}
        sector = ""
        if ctx.flag("sector_given%d" % i):
            sector = extra["sector_identifier_uri"] = ctx.str("sector%d" % i, 10, 1)
        sid = w.session(client, user=user, sub_type=kind, **extra)
        made.append((user, kind, sector, w.sm[sid].sub))
    judge(ctx, made)


def judge(ctx, made):
    for i, (u, k, s, sub) in enumerate(made):
        for u2, k2, s2, sub2 in made[:i]:
            if k == k2 == "public":
                ctx.cover("public")
                ctx.check((sub == sub2) == (u == u2), "public identifiers are not one for each user")
            elif k == k2 == "pairwise":
                ctx.cover("pairwise")
                if u == u2:
                    same = s == s2
                    ctx.check(ctx.implies(same, sub == sub2), "a pairwise identifier differs within a sector")
                    ctx.check(ctx.any(same, sub != sub2), "a pairwise identifier is the same in two sectors")
                else:
                    ctx.check(ctx.any(s != s2, sub != sub2), "two users have one identifier")
            elif "ephemeral" in (k, k2):
                if "pairwise" in (k, k2):
                    continue  # a digest of something arbitrary is longer: not modelled
                ctx.cover("ephemeral")
                ctx.check(sub != sub2, "an ephemeral identifier is not fresh")
            elif u != u2:
                ctx.check(sub != sub2, "two users have one identifier")


URIS = {"one": ["https://a.example.com/cb"], "two": ["https://a.example.com/cb", "https://a.example.com/other"],
        "mixed": ["https://a.example.com/cb", "https://b.example.com/cb"], "elsewhere": ["https://b.example.com/cb"]}
HOST = {"one": "a", "two": "a", "elsewhere": "b"}


def flow(ctx, w):
    """Whole authorizations: what each client registered for is what it gets, whatever the request says."""
    ctx.set_time(NOW)
    who = ctx.pick("first_user", ["diana", "babs"]), ctx.pick("second_user", ["diana", "babs"])
    made, kinds = [], []
    for i, client in enumerate(["client_1", "client_2"]):
        cinfo = w.ctx.cdb[client]
        kind = ctx.pick("registered%d" % i, ["nothing", "public", "pairwise", "ephemeral"] if i else ["nothing", "pairwise"])
        uris = ctx.pick("redirects%d" % i, list(URIS) if kind == "pairwise" else ["one"])
        cinfo["redirect_uris"] = [(u, None) for u in URIS[uris]]
        sector = HOST.get(uris, client)
        if kind != "nothing":
            cinfo["subject_type"] = kind
        if kind == "pairwise" and ctx.flag("sector_uri%d" % i):
            host = ctx.pick("sector_host%d" % i, ["a", "c"])
            cinfo["sector_identifier_uri"] = "https://%s.example.com/sector.json" % host
            sector = host
        kinds.append((client, kind, sector))
    for i, (client, kind, sector) in enumerate(kinds + [kinds[0]]):
        user = who[1] if i == 1 else who[0]
        req = {"client_id": client, "redirect_uri": w.ctx.cdb[client]["redirect_uris"][0][0], "scope": "openid", "state": "STATE",
               "nonce": "NONCE", "response_type": "code" if w.oauth2 else "code id_token"}
        if i and ctx.flag("sector_in_request%d" % i):
            req["sector_identifier_uri"] = ctx.str("request_sector%d" % i, 10, 1) if i == 1 else "https://a.example.com"
        ep = w.ep("authorization")
        w.ctx.authn_broker["anon"]["method"].user = user
        p = ctx.call(ep.parse_request, req)
        ctx.check(p.ok and "error" not in p.value, "the request is refused")
        r = ctx.call(ep.process_request, p.value)
        ctx.check(r.ok, "the request is refused")
        a = answer(r.value)
        ctx.check("code" in a, "the request is refused")
        info = w.sm.get_session_info_by_token(a["code"], grant=True)
        sub = info["grant"].sub
        ctx.check(info["user_id"] == user, "a session for another user")
        if "id_token" in a:
            ctx.check(decode(ctx, a["id_token"])[0]["sub"] == sub, "the ID token has another subject")
        made.append((user, "public" if kind == "nothing" else kind, sector, sub))
    judge(ctx, made)


def classes():
    def tweak(conf):
        conf["session_params"] = dict(conf["session_params"])
        conf["session_params"]["sub_func"] = {
            "public": {"class": "oidcop.session.manager.PublicID", "kwargs": {"salt": "salt1"}},
            "pairwise": {"class": "oidcop.session.manager.PairWiseID", "kwargs": {"salt": "salt2"}},
        }

    return World(tweak=tweak)


TYPES = ["public", "pairwise", "ephemeral"]
HARNESSES = [
    Harness("functions", functions, oidc_world, covers=TYPES, quick={"len": 12}, thorough={"len": 30},
            bounds="users, sectors and salts any string <= len characters; digests are injective functions"),
    Harness("sessions", sessions, oidc_world, covers=TYPES, quick={"sessions": 2}, thorough={"sessions": 3},
            bounds="`sessions` sessions of two users at two clients, any type each, any sector <= 10 characters"),
    Harness("sessions_classes", sessions, classes, covers=TYPES, quick={"sessions": 2}, thorough={"sessions": 3},
            bounds="as sessions, with the configured identifier classes"),
    Harness("oidc_flow", flow, oidc_world, covers=TYPES,
            bounds="three authorizations of two users at two clients; four subject types, four sets of redirect URIs, sector URI of two hosts; "
                   "any sector in the request"),
    Harness("oauth2_flow", flow, oauth2_world, covers=TYPES, bounds="as oidc_flow, on the OAuth2 endpoint"),
]
