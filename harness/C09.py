"""C09: the session store keeps user, client and grant entries apart."""
from engine.harness_api import Harness

from oidcop.session.database import Database
from oidcop.session.grant import Grant
from oidcop.session.info import ClientSessionInfo
from oidcop.session.info import UserSessionInfo

IDS = ["a", "b"]


def setup():
    return None


def fresh(path, children=()):
    if len(path) == 3:
        return Grant()
    v = UserSessionInfo() if len(path) == 1 else ClientSessionInfo()
    for c in children:
        v.add_subordinate(c)
    return v


class Shadow:
    """The specification: entries by path; ancestors come into being and vanish with what is below them."""

    def __init__(self):
        self.d = {}

    def children(self, path):
        return [p[-1] for p in self.d if p[:-1] == path and p]

    def set(self, path, value):
        self.d[path] = value
        for n in range(len(path) - 1, 0, -1):
            self.d.setdefault(path[:n], None)

    def delete(self, path):
        if path not in self.d:
            return
        for p in [p for p in self.d if p[:len(path)] == path]:
            del self.d[p]
        for n in range(len(path) - 1, 0, -1):
            if not self.children(path[:n]):
                del self.d[path[:n]]


def read(db, path):
    try:
        return db.get(list(path))
    except (KeyError, ValueError):
        return None


def compare(ctx, db, sh, users):
    paths = [(u,) for u in users]
    paths += [p + (c,) for p in paths for c in IDS]
    paths += [p + (c,) for p in paths if len(p) == 2 for c in IDS]
    for p in paths:
        v = read(db, p)
        if p not in sh.d:
            ctx.check(v is None, "something is found at a path where nothing is stored")
            continue
        ctx.check(v is not None, "what was stored is not found")
        want = sh.d[p]
        ctx.check(want is None or v is want, "a read returns something else than what was stored")
        if len(p) < 3:
            ctx.check(sorted(v.subordinate) == sorted(sh.children(p)), "the children listed are not the ones present")
    ctx.check(len(list(db.db.keys())) == len(sh.d), "entries are left behind that no path leads to")


def sequence(ctx, w):
    """Sets, deletes and updates at any level over identifiers shared between levels."""
    db, sh = Database("key"), Shadow()
    users = ["a", "a;;b"]
    n = ctx.params["ops"]
    for i in range(n):
        op = ctx.pick("op%d" % i, ["set", "delete"]) if i else "set"
        level = ctx.pick("level%d" % i, [3, 2, 1])
        path = (ctx.pick("u%d" % i, users) if i else "a",)
        for k in range(1, level):
            path += (ctx.pick("i%d.%d" % (i, k), IDS) if i else "a",)
        if op == "set":
            v = fresh(path, sh.children(path))
            db.set(list(path), v)
            sh.set(path, v)
        else:
            r = ctx.call(db.delete, list(path))
            ctx.check(r.ok, "a delete fails")
            ctx.cover("deleted" if path in sh.d else "nothing")
            sh.delete(path)
    compare(ctx, db, sh, users)


def separate(ctx, w):
    """Two paths of arbitrary identifiers do not touch each other unless one is at or below the other."""
    n = ctx.params["n"]
    l1, l2 = ctx.pick("levels", [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 3), (3, 1)])

    alpha = ";%3Ba " if (l1, l2) == (1, 1) else ";a"

    def lens(l, other):
        if l == other:
            return [[n + 1], [n, n], [1, 1, n - 1]][l - 1]
        # the shorter path may spell out the longer one
        return [n + 2] + [1] * (l - 1) if l < other else [1] * l

    p1 = [ctx.chars("p%d" % i, k, 1, alphabet=alpha) for i, k in enumerate(lens(l1, l2))]
    p2 = [ctx.chars("q%d" % i, k, 1, alphabet=alpha) for i, k in enumerate(lens(l2, l1))]
    db = Database("key")
    v1, v2 = fresh(p1), fresh(p2)
    same = ctx.all(*[ctx.eq(a, b) for a, b in zip(p1, p2)])
    db.set(list(p1), v1)
    if l2 < l1:
        ctx.assume(ctx.neg(same))
    db.set(list(p2), v2)
    got = read(db, p1)
    if l1 == l2 and bool(same):
        ctx.cover("equal")
        ctx.check(got is v2, "the later value is not found")
    else:
        ctx.cover("distinct")
        ctx.check(got is v1, "storing at one path changed another")
    ctx.check(read(db, p2) is v2, "what was stored is not found")
    db.delete(list(p2))
    ctx.check(read(db, p2) is None, "a deleted entry is still found")
    if l1 == l2 and bool(same):
        ctx.check(read(db, p1) is None, "a deleted entry is still found")
    elif l1 < l2 and bool(same):
        ctx.check(read(db, p1) is None, "a parent without children survives")
    else:
        ctx.check(read(db, p1) is v1, "deleting at one path changed another")


HARNESSES = [
    Harness("sequence", sequence, setup, covers=["deleted", "nothing"], quick={"ops": 3}, thorough={"ops": 4}, max_paths=60000,
            bounds="every sequence of `ops` operations over 2 users, 2 clients, 2 grants with shared and colliding identifiers"),
    Harness("separate", separate, setup, covers=["equal", "distinct"], quick={"n": 2}, thorough={"n": 3},
            bounds="two paths: two users of up to n+1 characters over ';%3Ba '; else identifiers over ';a' up to n characters, "
                   "where the levels differ n+2 for the user of the shorter path and one otherwise"),
]
