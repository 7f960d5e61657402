PROPS = {}


class Rule:
    def __init__(self, pid, fn, explain):
        self.pid, self.fn, self.explain = pid, fn, explain


def prop(pid, explain):
    def d(f):
        PROPS[pid] = Rule(pid, f, explain)
        return f
    return d
