"""Registry of properties and their instances (importable by both interpreters)."""

PROPS = {}


class Inst:
    def __init__(self, prop, name, run, setup, bounds, tier, cost, fork_returns, query_ms, limit, group):
        self.prop, self.name, self.run, self.setup = prop, name, run, setup
        self.bounds, self.tier, self.cost = bounds, tier, cost
        self.fork_returns = fork_returns
        self.query_ms = query_ms
        self.limit = limit
        self.group = group


class Prop:
    def __init__(self, pid):
        self.pid = pid
        self.insts = {}
        self.assumes = []
        self.stubs = []

    def add(self, name, run, setup=None, bounds="", tier="quick", cost=1.0, fork_returns=False, query_ms=120000,
            limit=600, group=None):
        assert name not in self.insts, name
        self.insts[name] = Inst(self.pid, name, run, setup, bounds, tier, cost, fork_returns, query_ms, limit, group)

    def inst(self, name, **kw):
        def d(f):
            self.add(name, f, **kw)
            return f
        return d


def prop(pid):
    if pid not in PROPS:
        PROPS[pid] = Prop(pid)
    return PROPS[pid]
