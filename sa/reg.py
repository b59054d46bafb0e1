PROPS = {}


def prop(pid, rule):
    def d(f):
        PROPS[pid] = (f, rule)
        return f
    return d
