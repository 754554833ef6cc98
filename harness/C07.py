"""C07: recursive revocation reaches exactly the descendants."""
from engine.harness_api import Harness
from harness.common import forest
from harness.world import oidc_world


def revoke(ctx, w):
    n = ctx.params.get("n", 4)
    sid = w.session()
    grant = w.authorized(sid)
    toks, parent, prior, desc = forest(ctx, w, sid, grant, n)
    other = w.session("client_2", user="babs")
    g2 = w.authorized(other)
    bystander = w.mint(other, "authorization_code")
    op = ctx.pick("op", ["grant_value", "grant_based_on", "grant_both", "manager", "grant_all", "absent"])
    rec = ctx.flag("recursive")
    k = ctx.pick("target", list(range(n))) if op not in ("grant_all", "absent") else 0
    v = toks[k].value
    if op == "grant_value":
        r = ctx.call(grant.revoke_token, value=v, recursive=rec)
        hit = [ctx.any(i == k, ctx.all(rec, desc(i, k))) for i in range(n)]
    elif op == "grant_based_on":
        r = ctx.call(grant.revoke_token, based_on=v, recursive=rec)
        hit = [ctx.any(parent[i] == k, ctx.all(rec, desc(i, k))) for i in range(n)]
    elif op == "grant_both":
        j = ctx.pick("source", list(range(n)))
        r = ctx.call(grant.revoke_token, value=v, based_on=toks[j].value, recursive=False)
        hit = [ctx.all(i == k, parent[i] == j) for i in range(n)]
    elif op == "manager":
        r = ctx.call(w.sm.revoke_token, sid, v, rec)
        hit = [ctx.any(i == k, ctx.all(rec, desc(i, k))) for i in range(n)]
    elif op == "absent":
        r = ctx.call(grant.revoke_token, value="no such token", recursive=rec)
        hit = [False] * n
    else:
        r = ctx.call(grant.revoke_token)
        hit = [True] * n
    ctx.check(r.ok, "revocation failed")
    ctx.cover(op)
    for i in range(n):
        ctx.check(ctx.eq(toks[i].revoked, ctx.any(prior[i], hit[i])), "revocation did not reach exactly the descendants")
    ctx.check(len(grant.issued_token) == n, "revocation changed the set of tokens")
    ctx.check(ctx.neg(bystander.revoked), "a token of another grant was revoked")
    ctx.check(ctx.neg(grant.revoked), "the grant itself was revoked")


HARNESSES = [
    Harness("revoke", revoke, oidc_world, covers=["grant_value", "grant_based_on", "manager", "grant_all"],
            quick={"n": 5}, thorough={"n": 6},
            bounds="every derivation forest over n tokens of a grant (symbolic parents), every prior revocation pattern"),
]
