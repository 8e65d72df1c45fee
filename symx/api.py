class Harness(object):
    def __init__(self, fn, name, bounds, max_paths, feas_ms, prove_ms, witnesses, fresh, budget, tiers, env, cands=4):
        self.fn, self.name, self.bounds = fn, name, bounds
        self.max_paths, self.feas_ms, self.prove_ms = max_paths, feas_ms, prove_ms
        self.witnesses, self.fresh, self.budget, self.tiers, self.env, self.cands = witnesses, fresh, budget, tiers, env, cands


def registry():
    hs = []

    def harness(bounds, name=None, max_paths=600, feas_ms=1000, prove_ms=8000, witnesses=4, fresh=True, budget=90, tiers=("quick", "thorough"), env="", cands=4):
        def deco(f):
            hs.append(Harness(f, name or f.__name__, bounds, max_paths, feas_ms, prove_ms, witnesses, fresh, budget, tiers, env, cands))
            return f
        return deco
    return hs, harness
