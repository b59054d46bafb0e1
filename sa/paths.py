"""Single paths through the flattened program: enumeration, the value of a node at the end of one path, affine forms
and the facts a path establishes."""


class Path:
    def __init__(self, a, blocks, env):
        self.a, self.blocks, self.env = a, blocks, env
        self.at = {}
        for i, b in enumerate(blocks):
            self.at.setdefault(b, []).append(i)
        self.memo = {}

    def resolve(self, n, i=None):
        """the node with every join on the path replaced by what came along it; i: position in the path from which one looks"""
        if i is None:
            i = len(self.blocks) - 1
        k = (n, i)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = n
        r = self._resolve(n, i)
        self.memo[k] = r
        return r

    def _resolve(self, n, i):
        a, g = self.a, self.a.g
        t = a.n[n]
        k = t[0]
        R = lambda x: self.resolve(x, i)
        if k == "phi":
            js = [j for j in self.at.get(t[1], ()) if 0 < j <= i]
            if not js:
                return n
            j = js[-1]
            op = g.phis.get((t[1], t[2]), {}).get(self.blocks[j - 1])
            return n if op is None else self.resolve(op, j - 1)
        if k == "op":
            return g.binop(t[1], t[2], R(t[3]), R(t[4]))
        if k == "cast":
            x = R(t[3])
            return n if x == t[3] else g.mk("cast", t[1], t[2], x)
        if k == "proj":
            x = R(t[1])
            st = t[2]
            if st[0] == "i":
                st = ("i", R(st[1]))
            return n if x == t[1] and st == t[2] else g.proj(x, st)
        if k == "agg":
            ch = tuple(R(x) for x in t[2])
            return n if ch == t[2] else g.mk("agg", t[1], ch)
        if k == "call" and t[2].split("::")[-1] in ("checked_add", "checked_sub", "max", "min", "get"):
            ch = tuple(R(x) for x in t[3])
            return n if ch == t[3] else g.mk("call", t[1], t[2], ch)
        if k in ("at", "with"):
            x = R(t[1])
            return n if x == t[1] else x
        if k == "discr":
            x = R(t[1])
            return n if x == t[1] else g.discr(x)
        if k in ("not", "flip"):
            x = R(t[1])
            c = g.cval(x)
            if c is not None:
                return g.const("bool" if k == "not" else "isize", 1 - c)
            return n if x == t[1] else g.mk(k, x)
        if k == "len":
            x = R(t[1])
            return n if x == t[1] else g.mklen(x)
        if k == "upd":
            x, y = R(t[1]), R(t[3])
            return n if (x, y) == (t[1], t[3]) else g.mk("upd", x, t[2], y)
        if k in ("store", "wstore"):
            x, y, z = R(t[1]), R(t[2]), R(t[3])
            return n if (x, y, z) == (t[1], t[2], t[3]) else g.mk(k, x, y, z)
        return n

    def conds(self):
        """[(condition node, value or ("not", values))] decided along the path"""
        a, out = self.a, []
        for i in range(len(self.blocks) - 1):
            b, s = self.blocks[i], self.blocks[i + 1]
            t = a.flat.blocks[b].t
            if b not in a.g.cond or t["k"] != "switch" or len(a.succ[b]) < 2:
                continue
            vals = [v for v, x in t["ts"] if x.id == s]
            c = self.resolve(a.g.cond[b], i)
            if a.g.cval(c) is not None:
                continue
            if vals and t["ow"].id != s:
                if len(vals) == 1:
                    out.append((c, vals[0], b))
            elif not vals:
                others = tuple(v for v, x in t["ts"])
                if others == (0,) and a.cond_bool(b):
                    out.append((c, 1, b))
                elif a.n[c][0] in ("discr", "flip") and len(others) == 1 and others[0] in (0, 1) and a.binary_enum(b):
                    out.append((c, 1 - others[0], b))
                else:
                    out.append((c, ("not", others), b))
        return out


def feasible(p):
    """no branch on the path contradicts a value that is a constant on it"""
    a = p.a
    for i in range(len(p.blocks) - 1):
        b, s = p.blocks[i], p.blocks[i + 1]
        t = a.flat.blocks[b].t
        if b not in a.g.cond or t["k"] != "switch" or len(a.succ[b]) < 2:
            continue
        k = a.g.cval(p.resolve(a.g.cond[b], i))
        if isinstance(k, (int, bool)) and s != next((x.id for v, x in t["ts"] if v == int(k)), t["ow"].id):
            return False
    return True


def walk(a, ex, start, stops, env0, limit=3000, pre=()):
    """all feasible paths from `start` to a block of `stops` or a terminal; inner loops are gone round at most once.
    None if there are too many."""
    out = []
    todo = [(list(pre) + [start], dict(env0))]
    steps = 0
    while todo:
        bl, env = todo.pop()
        steps += 1
        if steps > 200000 or len(out) > limit:
            return None
        b = bl[-1]
        if len(bl) > len(pre) + 1 and b in stops or b in a.term or len(bl) == len(pre) + 1 and b in stops:
            out.append(Path(a, bl, env))
            continue
        for s, e in ex.steps(b, env):
            if bl.count(s) >= 2:
                continue
            todo.append((bl + [s], e))
    return out


MAX = {"u8": 255, "u16": 65535, "u32": (1 << 32) - 1, "u64": (1 << 64) - 1, "usize": (1 << 64) - 1, "i32": (1 << 31) - 1, "i64": (1 << 63) - 1, "u128": (1 << 128) - 1}


# ---- affine forms
def narrows(t):
    return t[1] in MAX and t[2] in MAX and MAX[t[2]] < MAX[t[1]]


def checked(a, n):
    """n is the result of x.checked_add(y) or x.checked_sub(y): (x, y, sign, largest value of the type)"""
    t = a.n[n]
    if t[0] == "call" and t[2].split("::")[-1] in ("checked_add", "checked_sub") and len(t[3]) == 2:
        e = a.events.get(t[1])
        w = MAX.get(e["atys"][0]) if e else None
        if w is not None and not e["atys"][0].startswith("i"):
            return t[3][0], t[3][1], 1 if t[2].endswith("add") else -1, w
    return None


def element(a, n):
    """n is the result of x.get(i): (x, i)"""
    t = a.n[n]
    if t[0] == "call" and t[2].split("::")[-1] == "get" and len(t[3]) == 2 and len((a.events.get(t[1]) or {"atys": ()})["atys"]) == 2:
        e = a.events[t[1]]
        if e["atys"][1] == "usize" and e["atys"][0].startswith("&["):
            return a.deref(t[3][0]), t[3][1]
    return None


def lin(a, n, d=0):
    """({atom: coefficient}, constant) of an integer value"""
    n = a.strip(n)
    t = a.n[n]
    c = a.g.cval(n)
    if c is not None:
        return {}, c
    if d > 30:
        return {n: 1}, 0
    if t[0] == "cast":
        if narrows(t):
            return {n: 1}, 0
        return lin(a, t[3], d + 1)
    if t[0] == "op" and t[1] in ("Add", "Sub", "Mul"):
        x, y = lin(a, t[3], d + 1), lin(a, t[4], d + 1)
        if t[1] == "Mul":
            if x[0] and y[0]:
                return {n: 1}, 0
            if x[0]:
                x, y = y, x
            return {k: v * x[1] for k, v in y[0].items() if v * x[1]}, y[1] * x[1]
        return addlin(x, y, 1 if t[1] == "Add" else -1)
    if t[0] == "proj" and t[2][:2] == ("f", 0) and a.n[t[1]][0] == "proj" and a.n[t[1]][2][:2] == ("v", 1):
        k = checked(a, a.n[t[1]][1])
        if k is not None:
            return addlin(lin(a, k[0], d + 1), lin(a, k[1], d + 1), k[2])
    if t[0] == "call" and t[2].split("::")[-1] in ("unchecked_add", "unchecked_sub") and len(t[3]) == 2:
        return addlin(lin(a, t[3][0], d + 1), lin(a, t[3][1], d + 1), 1 if t[2].endswith("add") else -1)
    if t[0] == "call" and t[2].split("::")[-1] in ("from", "into", "clone", "try_from", "as_") and len(t[3]) == 1:
        return lin(a, t[3][0], d + 1)
    return {n: 1}, 0


def addlin(x, y, f=1):
    r = dict(x[0])
    for k, v in y[0].items():
        r[k] = r.get(k, 0) + f * v
        if not r[k]:
            del r[k]
    return r, x[1] + f * y[1]


class Facts:
    """equalities and bounds between natural numbers"""

    def __init__(self, canon=None, a=None):
        self.a, self.busy = a, set()
        self.sub = {}
        self.iv = {}
        self.ne = []
        self.raw = []
        self.bad = False
        self.tries = 40
        self.canon = canon or (lambda n: n)

    # wrapping and saturating sums and narrowing conversions are affine only where the bounds known exclude the overflow
    def affine(self, k):
        t = self.a.n[k]
        if t[0] == "cast":
            return lin(self.a, t[3])
        return addlin(lin(self.a, t[3][0]), lin(self.a, t[3][1]), 1 if t[2].endswith("add") else -1)

    def width(self, n):
        """the largest value of the type of n, as far as it shows"""
        while self.a.n[n][0] == "cast" and self.a.n[n][1] in MAX and not narrows(self.a.n[n]):
            w, n = MAX[self.a.n[n][1]], self.a.n[n][3]
            if self.a.n[n][0] != "cast":
                return n, w
        return n, None

    def exact(self, k):
        t = self.a.n[k]
        if k in self.busy:
            return False
        if t[0] == "cast" and narrows(t):
            w, src = MAX[t[2]], MAX[t[1]]
            parts = (t[3],)
        elif t[0] == "call" and t[2].split("::")[-1] in ("wrapping_add", "saturating_add", "wrapping_sub", "saturating_sub") and len(t[3]) == 2:
            e = self.a.events.get(t[1])
            w = src = MAX.get(e["atys"][0]) if e else None
            if w is None:
                return False
            parts = t[3]
        else:
            return False
        self.busy.add(k)
        for y in parts:
            z, m = self.width(y)
            for u, m in ((y, src), (z, m)):
                u = self.simp(lin(self.a, u))
                if m is not None and len(u[0]) == 1 and not u[1]:
                    (q, v), = u[0].items()
                    l, h = self.iv.get(q, (0, None))
                    if v == 1 and (h is None or h > m):
                        self.iv[q] = (l, m)
        self.check()
        x = self.simp(self.affine(k))
        self.busy.discard(k)
        lo, hi = self.bounds(x)
        return lo is not None and lo >= 0 and hi is not None and hi <= w

    def bounds(self, x):
        lo = hi = x[1]
        for q, v in x[0].items():
            l, h = self.iv.get(q, (0, None))
            if q == "cur" and h is None:
                h = 255
            if v > 0:
                lo, hi = None if lo is None else lo + v * l, None if hi is None or h is None else hi + v * h
            else:
                lo, hi = None if lo is None or h is None else lo + v * h, None if hi is None else hi + v * l
        return lo, hi

    def copy(self):
        f = Facts(self.canon, self.a)
        f.sub, f.iv, f.ne, f.raw, f.bad = dict(self.sub), dict(self.iv), list(self.ne), list(self.raw), self.bad
        return f

    def simp(self, x):
        for _ in range(8):
            r, ch = ({}, x[1]), False
            for k, v in x[0].items():
                k = self.canon(k)
                if k not in self.sub and self.a is not None and isinstance(k, int) and self.exact(k):
                    self.sub[k] = self.affine(k)
                if k in self.sub:
                    ch = True
                    s = self.sub[k]
                    r = addlin(r, ({q: w * v for q, w in s[0].items()}, s[1] * v))
                else:
                    r = addlin(r, ({k: v}, 0))
            x = r
            if not ch:
                break
        return x

    def rel(self, x, op):
        """x op 0 for op in == != <= <"""
        if op == "<":
            return self.rel((x[0], x[1] + 1), "<=")
        self.raw.append((x, op))
        x = self.simp(x)
        if not x[0]:
            ok = {"==": x[1] == 0, "!=": x[1] != 0, "<=": x[1] <= 0}[op]
            if not ok:
                self.bad = True
            return
        if op == "==":
            for k, v in sorted(x[0].items(), key=str):
                if v in (1, -1):
                    r = {q: -w * v for q, w in x[0].items() if q != k}
                    self.sub[k] = (r, -x[1] * v)
                    break
        elif op == "!=":
            self.ne.append(x)
        elif len(x[0]) == 1:
            (k, v), = x[0].items()
            lo, hi = self.iv.get(k, (0, None))
            if v > 0:
                b = (-x[1]) // v
                hi = b if hi is None else min(hi, b)
            else:
                lo = max(lo, -((-x[1]) // -v))
            self.iv[k] = (lo, hi)
        self.check()

    def check(self):
        for k, (lo, hi) in list(self.iv.items()):
            if k in self.sub:
                s = self.sub[k]
                if not s[0] and (s[1] < lo or hi is not None and s[1] > hi):
                    self.bad = True
            if hi is not None and lo > hi:
                self.bad = True
        for x in list(self.ne):
            x = self.simp(x)
            if not x[0] and x[1] == 0:
                self.bad = True
            if len(x[0]) == 1:
                (k, v), = x[0].items()
                if x[1] % v == 0:
                    p = -x[1] // v
                    lo, hi = self.iv.get(k, (0, None))
                    if lo == hi == p:
                        self.bad = True
                    elif lo == p:
                        self.iv[k] = (lo + 1, hi)
                        return self.check()
                    elif hi == p:
                        self.iv[k] = (lo, hi - 1)
                        return self.check()
        for k, (lo, hi) in list(self.iv.items()):
            if lo == hi and k not in self.sub:
                self.sub[k] = ({}, lo)
        # a bound that was stated on something that has become known since
        for x, op in self.raw:
            y = self.simp(x)
            if op == "<=" and y[0] and len(y[0]) < 4 and self.narrow(y):
                return self.check()
            if not y[0] and not {"==": y[1] == 0, "!=": y[1] != 0, "<=": y[1] <= 0}[op]:
                self.bad = True

    def narrow(self, y):
        """what y <= 0 says about the bounds of its parts; True if that is something new"""
        new = False
        for k, v in y[0].items():
            lo, _ = self.bounds(({q: w for q, w in y[0].items() if q != k}, y[1]))
            if lo is None:
                continue
            l, h = self.iv.get(k, (0, None))
            if v > 0:
                b = (-lo) // v
                if (h is None or b < h) and self.tries > 0:
                    self.tries -= 1
                    self.iv[k] = (l, b)
                    new = True
            else:
                b = -((-lo) // -v)
                if b > l and self.tries > 0:
                    self.tries -= 1
                    self.iv[k] = (b, h)
                    new = True
            if self.bad:
                return False
        return new

    def implies(self, x):
        """does x <= 0 follow?"""
        x = self.simp(x)
        lo, hi = self.bounds(x)
        if hi is not None and hi <= 0:
            return True
        for y, op in self.raw:
            d = addlin(x, self.simp(y), -1)
            if op == "<=" and not d[0] and d[1] <= 0:
                return True
        return False

    def zero(self, x):
        """True: x = 0 follows, False: x != 0 follows, None: unknown"""
        x = self.simp(x)
        if not x[0]:
            return x[1] == 0
        f = self.copy()
        f.rel(x, "==")
        if f.bad:
            return False
        g = self.copy()
        g.rel(x, "!=")
        if g.bad:
            return True
        return None

    def equal(self, x, y):
        return self.zero(addlin(x, y, -1))

    def learn(self, a, c, v, canon=None):
        """adds what a branch condition says; True if it was understood"""
        t = a.n[c]
        if t[0] == "not" and v in (0, 1):
            return self.learn(a, t[1], 1 - v)
        if t[0] == "op" and t[1] in ("Eq", "Ne", "Lt", "Le") and v in (0, 1) and t[2] not in ("f64", "f32"):
            x = addlin(lin(a, t[3]), lin(a, t[4]), -1)
            op = {"Eq": "==", "Ne": "!=", "Lt": "<", "Le": "<="}[t[1]]
            if not v:
                if op in ("==", "!="):
                    op = "!=" if op == "==" else "=="
                else:
                    # not x < 0: -x <= 0; not x <= 0: -x < 0
                    x = ({k: -w for k, w in x[0].items()}, -x[1])
                    op = "<=" if op == "<" else "<"
            self.rel(x, op)
            return True
        if t[0] == "op" and t[2] == "bool" and (t[1] == "BitAnd" and v == 1 or t[1] == "BitOr" and v == 0):
            return self.learn(a, t[3], v) & self.learn(a, t[4], v)
        if t[0] == "op" and t[2] == "bool" and t[1] in ("BitAnd", "BitOr") and v in (0, 1):
            # one part is known to hold: the other does not
            for x, y in (t[3:5], t[4:2:-1]):
                f = self.copy()
                if f.learn(a, x, v) and f.bad:
                    return self.learn(a, y, v)
            return False
        if t[0] == "flip":
            return v in (0, 1) and self.learn(a, t[1], 1 - v)
        if t[0] == "phi" and a.flat.local_ty[t[2]] not in MAX or t[0] in ("agg", "branch"):
            return False
        if t[0] == "discr" and v in (0, 1):
            k = element(a, a.strip(t[1]))
            if k is not None:
                x = addlin(lin(a, k[1]), ({a.g.mklen(k[0]): 1}, 0), -1)
                self.rel(x if v else ({q: -w for q, w in x[0].items()}, -x[1]), "<" if v else "<=")
                return True
            k = checked(a, a.strip(t[1]))
            if k is not None:
                x = addlin(lin(a, k[0]), lin(a, k[1]), k[2])
                over = addlin(x, ({}, k[3]), -1) if k[2] > 0 else ({q: -w for q, w in x[0].items()}, -x[1])
                # over <= 0: the result is in the range of the type
                self.rel(over if v else ({q: -w for q, w in over[0].items()}, -over[1]), "<=" if v else "<")
                return True
        if t[0] == "call" and (a.events.get(t[1]) or {}).get("dty") not in MAX:
            return False
        if isinstance(v, int):
            if t[0] == "op" and t[2] == "bool":
                return False
            self.rel(addlin(lin(a, c), ({}, v), -1), "==")
            return True
        if isinstance(v, tuple) and v[0] == "not":
            for w in v[1]:
                self.rel(addlin(lin(a, c), ({}, w), -1), "!=")
            return True
        return False


def alts(a, c, v, d=0):
    """the ways in which a condition can have come out as it did: [[(condition, value) or (affine form, "==" or "!=")]]"""
    t = a.n[c]
    if t[0] in ("not", "flip") and v in (0, 1) and d < 8:
        return alts(a, t[1], 1 - v, d + 1)
    parts = None
    if t[0] == "op" and t[1] in ("BitAnd", "BitOr") and t[2] == "bool" and v in (0, 1):
        both = v == (t[1] == "BitAnd")
        x, y = alts(a, t[3], v, d + 1), alts(a, t[4], v, d + 1)
        if both:
            return [p + q for p in x for q in y]
        return x + [p + q for p in alts(a, t[3], 1 - v, d + 1) for q in y]
    if t[0] == "op" and t[1] in ("Eq", "Ne") and v in (0, 1):
        for x, y in (t[3:5], t[4:2:-1]):
            x, y = a.strip(x), a.strip(y)
            k, z = a.n[x], a.g.cval(y)
            if k[0] == "op" and k[1] == "BitOr" and k[2] in MAX and z == 0:
                parts = [lin(a, k[3]), lin(a, k[4])]
            elif k[0] == "agg" and k[1][0] == "tuple" and k[2]:
                n = len(k[2])
                if a.n[y][0] == "const" and isinstance(a.n[y][2], tuple) and a.n[y][2][0] == "bytes":
                    z = bytes(a.n[y][2][1])
                if isinstance(z, bytes) and len(z) % n == 0 and len(z) // n in (1, 2, 4, 8):
                    w = len(z) // n
                    parts = [addlin(lin(a, q), ({}, int.from_bytes(z[i * w:i * w + w], "little")), -1) for i, q in enumerate(k[2])]
                elif a.n[y][0] == "agg" and len(a.n[y][2]) == n:
                    parts = [addlin(lin(a, q), lin(a, r), -1) for q, r in zip(k[2], a.n[y][2])]
            if parts:
                break
        if parts:
            if v == (t[1] == "Eq"):
                return [[(q, "==") for q in parts]]
            return [[(q, "==") for q in parts[:i]] + [(parts[i], "!=")] for i in range(len(parts))]
    return [[(c, v)]]


def ways(a, conds, limit=64):
    """the facts a list of decided conditions establishes, one set for every way in which they can have come out so"""
    fs = [Facts(a=a)]
    for c, v in conds:
        out = []
        al = alts(a, c, v)
        for f in fs:
            for l in al:
                g = f.copy() if len(al) > 1 else f
                for x, y in l:
                    if y in ("==", "!=") and isinstance(x, tuple):
                        g.rel(x, y)
                    else:
                        g.learn(a, x, y)
                if not g.bad:
                    out.append(g)
        fs = out
        if len(fs) > limit:
            return fs[:0] + [Facts(a=a)]
    return fs
