"""The same harness API over concrete values: used to replay solver models on the real code."""
from engine import env


class Stop(BaseException):
    pass


class Infeasible(BaseException):
    pass


class Result:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        return "ok" if self.exc is None else "exc:" + type(self.exc).__name__


class ConcCtx:
    symbolic = False

    def __init__(self, inputs, params, known):
        self.inputs = inputs
        self.params = params
        self.known = known
        self.labels = []
        self.traces = []
        self.violations = []
        self.known_hits = []
        self.used = set()

    def _in(self, name, default):
        self.used.add(name)
        return self.inputs.get(name, default)

    def bool(self, name):
        return self._in(name, False)

    def int(self, name, lo=None, hi=None):
        return self._in(name, lo if lo is not None else 0)

    def str(self, name, maxlen=12, minlen=0, lo="!", hi="~"):
        return self._in(name, lo * minlen)

    def chars(self, name, maxlen, minlen=0, alphabet=None):
        if maxlen > minlen:
            self.pick(name + "#len", list(range(minlen, maxlen + 1)))
        return self._in(name, "")

    def pick(self, name, options):
        options = list(options)
        return options[self._in(name, 0)]

    def flag(self, name):
        return self.pick(name, [False, True])

    def assume(self, c):
        if not c:
            raise Infeasible()

    def check(self, cond, label, known=()):
        if cond:
            return
        for kid, kc in known:
            if kid in self.known and kc:
                self.known_hits.append([kid, label])
                return
        self.violations.append(label)

    def fail(self, label, known=()):
        self.check(False, label, known)

    def cover(self, label):
        self.labels.append("@" + label)

    def note(self, x):
        self.labels.append(str(x))

    def trace(self, x):
        self.traces.append(x)

    def stop(self):
        raise Stop()

    def call(self, f, *a, **k):
        try:
            return Result(f(*a, **k))
        except Exception as e:
            return Result(exc=e)

    def eq(self, a, b):
        return a == b

    def isin(self, x, c):
        return x in c

    def all(self, *xs):
        return all(xs)

    def any(self, *xs):
        return any(xs)

    def neg(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or b

    def ite(self, c, a, b):
        return a if c else b

    def choose_str(self, idx, options, default):
        return dict(options).get(idx, default)

    def text(self, x):
        return x

    def set_time(self, t):
        env.clock.now = t
