"""C08: revoking a grant, client session or user session ends that power, and only that."""
from engine.harness_api import Harness
from harness.C01 import request
from harness.C04 import rreq
from harness.C20 import ask
from harness.C20 import opaque_world
from harness.C21 import introspect
from harness.common import all_tokens
from harness.common import handed_out
from harness.world import NOW
from harness.world import oauth2_world
from harness.world import oidc_world

# user, client, label
SESSIONS = [("diana", "client_1", "a"), ("diana", "client_1", "b"), ("diana", "client_2", "c"), ("babs", "client_1", "d")]


def token_ep(ctx, w, req):
    ep = w.ep("token")
    r = ctx.call(ep.parse_request, req)
    if not r.ok:
        return False
    r = ctx.call(ep.process_request, r.value)
    return bool(r.ok and handed_out(r.value))


def works(ctx, w, use, tok, client):
    """Does presenting the token have an effect at this endpoint?"""
    if use == "redeem":
        return token_ep(ctx, w, request(tok["code"], client, "https://rp%s.example.com/cb" % client[-1]))
    if use == "refresh":
        return token_ep(ctx, w, rreq(tok["rt"], client))
    if use == "userinfo":
        return ask(ctx, w, tok["at"])[1] is not None
    r, ra = introspect(ctx, w, tok["at" if use == "introspect_at" else "rt"], client)
    return bool(ra is not None and ra.get("active"))


def revoked(ctx, w):
    sids, grants, toks = {}, {}, {}
    for user, client, lab in SESSIONS:
        sid = w.session(client, user=user, scope=["openid", "offline_access"])
        grants[lab] = w.authorized(sid)
        sids[lab] = sid
        code0 = w.mint(sid, "authorization_code")
        toks[lab] = {
            "code": w.mint(sid, "authorization_code").value,
            "rt": w.mint(sid, "refresh_token", based_on=code0).value,
            "at": w.mint(sid, "access_token", based_on=code0).value,
        }
    # earlier history: some grants may have been revoked before
    prior = {lab: ctx.bool("revoked_" + lab) for _, _, lab in SESSIONS}
    for lab in prior:
        grants[lab].revoked = prior[lab]
    target = ctx.pick("target", ["a", "b", "c", "d"])
    which = ctx.pick("which", ["a", "b", "c", "d"])
    # what is not valid yet when the session is revoked is not to become so
    nbf = {lab: 0 for lab in grants}
    if ctx.flag("early"):
        nbf[which] = grants[which].not_before = ctx.int("not_before", 0, NOW + 200)
        tn = ctx.int("token_not_before", 0, NOW + 200)
        for t in grants[which].issued_token:
            t.not_before = tn
    else:
        tn = 0
    hows = ["grant", "client_session"] + ([] if w.oauth2 else ["logout_client", "logout_all"])
    how = ctx.pick("how", hows)
    user, client = [(u, c) for u, c, lab in SESSIONS if lab == target][0]
    if how == "grant":
        r = ctx.call(w.sm.revoke_grant, sids[target])
        hit = [target]
    elif how == "client_session":
        r = ctx.call(w.sm.revoke_client_session, sids[target])
        hit = [lab for u, c, lab in SESSIONS if (u, c) == (user, client)]
    elif how == "logout_client":
        r = ctx.call(w.ep("session").do_verified_logout, sids[target], alla=False)
        hit = [lab for u, c, lab in SESSIONS if (u, c) == (user, client)]
    else:
        r = ctx.call(w.ep("session").do_verified_logout, sids[target], alla=True)
        hit = [lab for u, c, lab in SESSIONS if u == user]
    ctx.check(r.ok, "a revocation fails")
    if how != "grant":
        ctx.check(w.sm.client_session_is_revoked(sids[target]), "the client session is not marked revoked")
    uses = ["redeem", "refresh", "introspect_at", "introspect_rt"] + ([] if w.oauth2 else ["userinfo"])
    use = ctx.pick("use", uses)
    cl = [c for u, c, lab in SESSIONS if lab == which][0]
    now = NOW + ctx.int("later", 0, 250)
    ctx.set_time(now)
    ok = works(ctx, w, use, toks[which], cl)
    ctx.note(ok)
    if ok:
        ctx.cover("works")
        ctx.check(which not in hit, "a token of a revoked session still works")
        ctx.check(ctx.neg(prior[which]), "a token of a grant revoked earlier works")
    else:
        ctx.cover("refused")
        ctx.check(ctx.any(which in hit, prior[which], now < nbf[which], now < tn), "revoking one session stopped another one")


HARNESSES = [
    Harness("oidc", revoked, oidc_world, covers=["works", "refused"],
            bounds="two users, two clients, four grants in any prior revocation state, valid at once or later; one revocation, any use of any token up to 250 s later"),
    Harness("oauth2", revoked, oauth2_world, covers=["works", "refused"], bounds="as oidc without user info and logout"),
    Harness("opaque", revoked, opaque_world, covers=["works", "refused"], bounds="as oidc with opaque tokens"),
]
