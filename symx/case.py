"""Registry of harnesses.  A case = one harness function with concrete sizes/configuration;
everything else in it is symbolic.  This module is imported by the symbolic run and by the
concrete replay alike and must stay light."""
CASES = []


class Case:
    def __init__(self, prop, module, fn, name, params, tier, limits, known):
        self.prop, self.module, self.fn, self.name, self.params = prop, module, fn, name, params
        self.tier, self.limits, self.known = tier, limits, known


def _nm(v):
    if isinstance(v, (list, tuple)):
        return "(" + ",".join(_nm(x) for x in v) + ")"
    return str(v)


def case(prop, quick=({},), thorough=(), known=False, **limits):
    """register fn for property `prop`; quick/thorough list parameter dicts (thorough runs both)"""
    def deco(fn):
        for tier, ps in (("quick", quick), ("thorough", thorough)):
            for p in ps:
                p = dict(p)
                lim = dict(limits)
                lim.update(p.pop("_", {}))
                nm = fn.__name__ + "[" + ",".join("%s=%s" % (k, _nm(v)) for k, v in p.items()) + "]"
                CASES.append(Case(prop, fn.__module__, fn.__name__, nm, p, tier, lim, known))
        return fn
    return deco


def product(**k):
    """list of parameter dicts, cartesian"""
    out = [{}]
    for n, vs in k.items():
        out = [dict(o, **{n: v}) for o in out for v in vs]
    return out
