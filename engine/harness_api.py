class Harness:
    """One symbolic harness: ``fn(ctx, state)``, with a concrete ``setup()`` run once beforehand."""

    def __init__(self, name, fn, setup=None, covers=(), quick=None, thorough=None, bounds="",
                 deadline=100, thorough_deadline=600, max_paths=20000, assumptions=()):
        self.name, self.fn, self.setup = name, fn, setup
        self.covers = list(covers)
        self.params = {"quick": quick or {}, "thorough": thorough if thorough is not None else (quick or {})}
        self.bounds = bounds
        self.deadline = {"quick": deadline, "thorough": thorough_deadline}
        self.max_paths = {"quick": max_paths, "thorough": 10 * max_paths}
        self.assumptions = list(assumptions)
