"""Shared pieces of the harnesses: symbolic pre-states and reference predicates."""

BIG = 1 << 40
TOKENS = ("access_token", "refresh_token", "id_token", "code")


def sym_now(ctx, name="now"):
    now = ctx.int(name, 1, BIG)
    ctx.set_time(now)
    return now


def sym_item(ctx, name, item, used=True, nbf=True):
    """Put an item (token or grant) in an arbitrary life-cycle state; returns the snapshot."""
    item.expires_at = ctx.int(name + ".expires_at", 0, BIG)
    item.not_before = ctx.int(name + ".not_before", 0, BIG) if nbf else 0
    item.revoked = ctx.bool(name + ".revoked")
    if used:
        item.used = ctx.int(name + ".used", 0, 4)
    return Snap(item)


class Snap:
    def __init__(self, item):
        self.expires_at = item.expires_at
        self.not_before = item.not_before
        self.revoked = item.revoked
        self.used = item.used
        self.max_usage = item.usage_rules.get("max_usage")

    def active(self, ctx, now):
        """The specification of "still valid": not revoked, not used up, inside its time window."""
        cs = [
            ctx.neg(self.revoked),
            ctx.any(self.expires_at == 0, now <= self.expires_at),
            ctx.any(self.not_before == 0, now >= self.not_before),
        ]
        if self.max_usage is not None:
            cs.append(self.used < self.max_usage)
        return ctx.all(*cs)


def response_args(value):
    """What a token endpoint would hand out: the response arguments, or {} for an error."""
    if isinstance(value, dict) and "response_args" in value:
        return value["response_args"]
    return {}


def handed_out(value):
    ra = response_args(value)
    return [t for t in TOKENS if t in ra and ra[t]]


def all_tokens(sm):
    out, seen = [], []
    for k, v in sm.db.items():
        if hasattr(v, "issued_token") and id(v) not in seen:
            seen.append(id(v))
            out.extend(v.issued_token)
    return out


def outcome(ctx, r):
    """A path label: which kind of answer came back."""
    if not r.ok:
        return "exc"
    v = r.value
    if v is None:
        return "none"
    try:
        if "error" in v:
            return "error:" + str(v["error"])
    except TypeError:
        pass
    return "answer"


CLASSES = ["authorization_code", "refresh_token", "access_token"]


def forest(ctx, w, sid, grant, n, roots=0, name="t"):
    """Replace the grant's tokens by n tokens with arbitrary lineage and revocation state.

    parent[i] is -1 or an index below i; the tokens' based_on are symbolic strings."""
    toks, parent, prior = [], [], []
    for i in range(n):
        cls = "authorization_code" if i < max(roots, 1) else ("refresh_token" if i % 2 else "access_token")
        t = w.mint(sid, cls)
        toks.append(t)
    for i, t in enumerate(toks):
        if i < roots:
            parent.append(-1)
            t.based_on = None
        else:
            p = ctx.int("%s%d.parent" % (name, i), -1, i - 1)
            # decided lazily: based_on is compared with values by the code under test
            t.based_on = ctx.choose_str(p, [(j, toks[j].value) for j in range(i)], "")
            parent.append(p)
        t.revoked = ctx.bool("%s%d.revoked" % (name, i))
        prior.append(t.revoked)

    def desc(i, k, _memo={}):
        """token i descends from token k"""
        if i <= k:
            return False
        return ctx.any(parent[i] == k, *[ctx.all(parent[i] == j, desc(j, k)) for j in range(k + 1, i)])

    return toks, parent, prior, desc
