"""C02: presenting a redeemed code again revokes everything it produced, and nothing else."""
from engine.harness_api import Harness
from harness.C01 import CB
from harness.C01 import request
from harness.common import BIG
from harness.common import all_tokens
from harness.common import forest
from harness.common import handed_out
from harness.common import outcome
from harness.common import sym_item
from harness.common import sym_now
from harness.world import oidc_world


def present(ctx, w, req):
    ep = w.ep("token")
    r = ctx.call(ep.parse_request, req)
    if not r.ok:
        return r
    return ctx.call(ep.process_request, r.value)


def trees(ctx, w):
    """Arbitrary token trees below two codes of one grant."""
    n = ctx.params.get("n", 5)
    sid = w.session("client_1", scope=["openid", "offline_access"])
    grant = w.authorized(sid)
    toks, parent, prior, desc = forest(ctx, w, sid, grant, n, roots=2)
    sid2 = w.session("client_1", user="babs", scope=["openid", "offline_access"])
    g2 = w.authorized(sid2)
    c3 = w.mint(sid2, "authorization_code")
    o1 = w.mint(sid2, "refresh_token", based_on=c3)
    o2 = w.mint(sid2, "access_token", based_on=o1)
    code = toks[0]
    # any state a redeemed code can be in, at any time, whether its grant is still alive or not
    sym_now(ctx)
    sym_item(ctx, "code", code)
    ctx.assume(code.used >= 1)
    prior[0] = code.revoked
    grant.expires_at = ctx.int("grant.expires_at", 0, BIG)
    grant.revoked = grant_revoked = ctx.bool("grant.revoked")
    toks[1].used = ctx.int("used_other", 0, 1)
    n0 = len(all_tokens(w.sm))
    client = ctx.pick("client", ["client_1", "client_2"])
    r = present(ctx, w, request(code.value, client, CB))
    ctx.note(outcome(ctx, r))
    ctx.check(not (r.ok and handed_out(r.value)), "a redeemed code yields tokens again")
    ctx.check(len(all_tokens(w.sm)) == n0, "a redeemed code creates tokens again")
    ctx.cover("refused")
    for i in range(1, n):
        ctx.check(ctx.eq(toks[i].revoked, ctx.any(prior[i], desc(i, 0))),
                  "replay did not revoke exactly what the code produced")
    ctx.check(not (o1.revoked or o2.revoked or c3.revoked), "replay revoked tokens of another grant")
    ctx.check(ctx.eq(grant.revoked, grant_revoked) and g2.revoked is False, "replay revoked a whole grant")


def flow(ctx, w):
    """A real history: redeem, refresh some times, redeem another code, then replay."""
    sid = w.session("client_1", scope=["openid", "offline_access"])
    grant = w.authorized(sid)
    a = w.mint(sid, "authorization_code")
    b = w.mint(sid, "authorization_code")
    t = ctx.int("dt", 0, 1 << 36)
    r1 = present(ctx, w, request(a.value, "client_1", CB))
    ctx.check(r1.ok and "access_token" in handed_out(r1.value), "a fresh code is not redeemable")
    r2 = present(ctx, w, request(b.value, "client_1", CB))
    ctx.check(r2.ok and "access_token" in handed_out(r2.value), "a second fresh code is not redeemable")
    rt = {"a": r1.value["response_args"]["refresh_token"], "b": r2.value["response_args"]["refresh_token"]}
    made = {"a": [], "b": []}
    for k, r in (("a", r1), ("b", r2)):
        made[k] += [r.value["response_args"][x] for x in ("access_token", "refresh_token")]
    steps = ctx.params.get("steps", 2)
    for i in range(steps):
        k = ctx.pick("refresh%d" % i, ["none", "a", "b"])
        if k == "none":
            continue
        req = {"grant_type": "refresh_token", "refresh_token": rt[k], "client_id": "client_1",
               "client_secret": "hemligt_for_client_1"}
        r = present(ctx, w, req)
        ctx.check(r.ok and "access_token" in handed_out(r.value), "an active refresh token does not refresh")
        ra = r.value["response_args"]
        made[k] += [ra[x] for x in ("access_token", "refresh_token") if x in ra]
        if "refresh_token" in ra:
            rt[k] = ra["refresh_token"]
    ctx.set_time(1_700_000_000 + t)
    again = ctx.pick("replayed", ["a", "b"])
    r = present(ctx, w, request({"a": a, "b": b}[again].value, "client_1", CB))
    ctx.check(not (r.ok and handed_out(r.value)), "a redeemed code yields tokens again")
    other = "b" if again == "a" else "a"
    for v in made[again]:
        ctx.check(grant.get_token(v).revoked, "a token produced by the replayed code is not revoked")
    for v in made[other]:
        ctx.check(not grant.get_token(v).revoked, "a token produced by another code was revoked")
    # the last refresh token of the replayed code must be dead, the other's alive
    for k, dead in ((again, True), (other, False)):
        req = {"grant_type": "refresh_token", "refresh_token": rt[k], "client_id": "client_1",
               "client_secret": "hemligt_for_client_1"}
        r = present(ctx, w, req)
        ok = bool(r.ok and handed_out(r.value))
        ctx.check(not ok if dead else ctx.any(ok, t > 250), "refresh after replay: wrong outcome")
    ctx.cover("done")


HARNESSES = [
    Harness("trees", trees, oidc_world, covers=["refused"], quick={"n": 5}, thorough={"n": 6},
            bounds="two codes of one grant, every forest of n-2 tokens below them, every prior revocation pattern, any usage count, expiry, clock, and grant state"),
    Harness("flow", flow, oidc_world, covers=["done"], quick={"steps": 2}, thorough={"steps": 4},
            bounds="up to `steps` refreshes of either code's tokens between redemption and replay, which comes at any later time"),
]
