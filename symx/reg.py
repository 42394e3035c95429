"""Scenario registry: a scenario is one harness body, a list of configurations, and the property it decides."""
SCENARIOS = []


class Scenario:
    def __init__(self, prop, fn, over, thorough_over, opts, module):
        self.prop, self.fn, self.over, self.thorough_over, self.opts, self.module = prop, fn, over, thorough_over, opts, module
        self.name = fn.__name__

    def configs(self, tier):
        if tier == 'thorough':
            return list(self.over) + [p for p in self.thorough_over if p not in self.over]
        return list(self.over)


def scenario(prop, over=({},), thorough_over=(), **opts):
    """opts: budget (s), goal_ms, fork_ms, noise, npts, max_paths, ctol; t_<opt> overrides for the thorough tier;
    nowitness=True: the paths' witnesses are not meaningful float inputs."""
    def deco(fn):
        for p in ([prop] if isinstance(prop, str) else prop):
            SCENARIOS.append(Scenario(p, fn, over, thorough_over, opts, fn.__module__))
        return fn
    return deco


def find(module, name):
    for s in SCENARIOS:
        if s.module == module and s.name == name:
            return s
    raise KeyError((module, name))
