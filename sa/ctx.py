import extract
from ir import World
from an import Analysis


class Ctx:
    """what one check run has looked at and found"""
    _worlds = {}
    _an = {}

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.violations = []
        self.counts = {}
        self.samples = []
        self.roots = set()
        self.fns = set()
        self.obligations = 0
        self.assumptions = []
        self._ex = {}

    def profiles(self):
        return ["release", "dev"] if self.tier == "thorough" else ["release"]

    def world(self, profile="release"):
        if profile not in Ctx._worlds:
            if profile == "either":
                # both builds at once: what cfg!(..) says is left open
                Ctx._worlds[profile] = World(extract.extract("release"), openconf=True)
            else:
                Ctx._worlds[profile] = World(extract.extract(profile))
        return Ctx._worlds[profile]

    def tools(self, profile="release"):
        return [b for b in self.world(profile).bins if b + "::main" in self.world(profile).fns]

    def A(self, tool, seeds=None, opaque=(), profile="release"):
        root = tool if "::" in tool else tool + "::main"
        key = (root, repr(sorted((seeds or {}).items(), key=repr)), tuple(sorted(opaque)), profile)
        if key not in Ctx._an:
            Ctx._an[key] = Analysis(self.world(profile), root, seeds, opaque)
        a = Ctx._an[key]
        self.roots.add(root + (" " + repr(seeds) if seeds else ""))
        for b in a.reached:
            self.fns.add(a.flat.blocks[b].fn)
        return a

    def explorer(self, a, extra=()):
        k = (id(a), tuple(extra))
        if k not in self._ex:
            self._ex[k] = a.explorer(extra)
        return self._ex[k]

    def ok(self, n=1, what=None):
        self.obligations += n
        if what:
            self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def violate(self, key, where, what, path=()):
        if any(v["key"] == key for v in self.violations):
            return
        self.violations.append({"key": key, "where": where, "what": what, "path": list(path)})

    def floor(self, what, n, least):
        """fail closed when the code no longer contains what the rule is about"""
        self.counts[what] = n
        if n < least:
            self.violate("floor:" + what, "(whole program)", "only %d %s found, at least %d expected: the analysed construct "
                         "is gone or no longer recognised" % (n, what, least))

    def path(self, a, ex, s):
        out, last = [], None
        for b in ex.path(s):
            t = a.flat.blocks[b].t
            l = "%s %s:%s" % (a.flat.blocks[b].fn, t.get("f"), t.get("ln"))
            if l != last:
                out.append(l)
            last = l
        return out[-40:]
