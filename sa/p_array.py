"""C21, C28, C31: arrays filled element by element; what a round of a loop stores where, against the definition of the array.

Loops and closures are described by their counter: the number of rounds done, with the values it takes; every element that an
iterator hands out is written in terms of it."""
import re

from p_factor import body_of, cases, extreme, loop_paths
from paths import MAX, Facts, Path, addlin, lin, narrows
from p_io import SOME
from props import *
from reg import prop


class Rounds(Path):
    """a path that goes round one loop; what inner loops change is left as it is"""

    def __init__(self, a, blocks, env, inner):
        super().__init__(a, blocks, env)
        self.inner = inner

    def resolve(self, n, i=None):
        return super().resolve(n, len(self.blocks) - 2 if i is None else i)

    def _resolve(self, n, i):
        t = self.a.n[n]
        if t[0] == "phi" and t[1] in self.inner:
            return n
        return super()._resolve(n, i)


def neg(x):
    return {k: -v for k, v in x[0].items()}, -x[1]


def root(a, n):
    """the array a value is a version of: effects and views taken off"""
    for _ in range(60):
        n = a.strip(n)
        t = a.n[n]
        if t[0] == "eff":
            n = t[3]
        elif t[0] in ("store", "wstore"):
            n = t[1]
        elif t[0] == "load":
            n = t[1]
        elif t[0] == "call" and t[2].split("::")[-1] in ("deref", "as_slice", "borrow", "as_ref", "clone", "to_vec", "into_boxed_slice") and t[3]:
            n = t[3][0]
        else:
            return n
    return n


class Sym:
    """values in terms of counters, elements of arrays and lengths"""

    def __init__(self, a):
        self.a = a
        self.memo = {}
        self.small = set()  # atoms below 256
        self.nodes = {}

    # ---- iterators: (kind, ...) with item(k) and a domain
    def source(self, n, d=0):
        """what an iterator value iterates over:
        ("range", lo, hi)  ascending lo..hi-1;  ("rev", desc);  ("iter", array, offset, length or None);  ("enum", desc);  ("zip", d1, d2)"""
        a = self.a
        n = a.strip(n)
        t = a.n[n]
        if d > 20:
            return None
        if t[0] == "agg" and t[1][0] == "adt" and t[1][3] == "Range" and len(t[2]) == 2:
            return ("range", self.lin(t[2][0]), self.lin(t[2][1]))
        if t[0] == "call":
            last = t[2].split("::")[-1]
            e = a.events.get(t[1])
            if last == "new" and len(t[3]) == 2 and e and "RangeInclusive" in e["dty"]:
                return ("range", self.lin(t[3][0]), addlin(self.lin(t[3][1]), ({}, 1)))
            if last in ("iter", "iter_mut") and len(t[3]) == 1:
                return ("iter", root(a, t[3][0]), ({}, 0))
            if last in ("into_iter", "copied", "cloned", "by_ref", "fuse"):
                if last == "into_iter" and e and ("Vec<" in e["atys"][0] or e["atys"][0].startswith("&")):
                    return ("iter", root(a, t[3][0]), ({}, 0))
                return self.source(t[3][0], d + 1)
            if last == "rev":
                s = self.source(t[3][0], d + 1)
                return s and ("rev", s)
            if last == "enumerate":
                s = self.source(t[3][0], d + 1)
                return s and ("enum", s)
            if last == "zip" and len(t[3]) == 2:
                x, y = self.source(t[3][0], d + 1), self.source(t[3][1], d + 1)
                return x and y and ("zip", x, y)
            if last == "skip" and len(t[3]) == 2:
                s = self.source(t[3][0], d + 1)
                if s and s[0] in ("iter", "range"):
                    return (s[0], s[1], addlin(s[2], self.lin(t[3][1]))) if s[0] == "iter" else ("range", addlin(s[1], self.lin(t[3][1])), s[2])
                return s and ("skip", s, self.lin(t[3][1]))
            if last == "windows" and len(t[3]) == 2 and a.g.cval(a.strip(t[3][1])) == 2:
                return ("windows", root(a, t[3][0]))
        if t[0] == "phi":
            # an iterator at the head of its loop
            ops = {a.strip(o) for p, o in a.g.phis.get((t[1], t[2]), {}).items() if not a.dominates(t[1], p)}
            if len(ops) == 1:
                return self.source(ops.pop(), d + 1)
        if t[0] == "eff":
            return self.source(t[3], d + 1)
        return None

    def item(self, s, k):
        """the item in round k (an affine form, counted from 0)"""
        if s[0] == "range":
            return ("int", addlin(s[1], k))
        if s[0] == "rev":
            l = self.length(s[1])
            return l and self.item(s[1], addlin(addlin(l, ({}, -1)), k, -1))
        if s[0] == "iter":
            return ("el", s[1], addlin(s[2], k))
        if s[0] == "skip":
            return self.item(s[1], addlin(s[2], k))
        if s[0] == "enum":
            return ("tuple", ("int", k), self.item(s[1], k))
        if s[0] == "zip":
            return ("tuple", self.item(s[1], k), self.item(s[2], k))
        if s[0] == "windows":
            return ("view", s[1], k)

    def length(self, s):
        if s[0] == "range":
            return addlin(s[2], s[1], -1)
        if s[0] in ("rev", "enum"):
            return self.length(s[1])
        if s[0] == "iter":
            return addlin(self.len_of(s[1]), s[2], -1)
        if s[0] == "skip":
            l = self.length(s[1])
            return l and addlin(l, s[2], -1)
        if s[0] == "zip":
            x, y = self.length(s[1]), self.length(s[2])
            return x if x == y else None
        if s[0] == "windows":
            return addlin(self.len_of(s[1]), ({}, -1))

    def len_of(self, x):
        """the length of an array, through the way it was made"""
        a = self.a
        t = a.n[x]
        if t[0] == "phi":
            ops = {a.strip(o) for p, o in a.g.phis.get((t[1], t[2]), {}).items() if not a.dominates(t[1], p)}
            if len(ops) == 1:
                y = root(a, ops.pop())
                if a.n[y][0] == "call" and a.n[y][2].split("::")[-1] == "from_elem":
                    return self.len_of(y)
        if t[0] == "call" and t[2].split("::")[-1] == "from_elem" and len(t[3]) == 2:
            return self.lin(t[3][1])
        return {("len", x): 1}, 0

    # ---- values
    def val(self, n, d=0):
        """("int", affine) | ("el", array, affine) | ("tuple", ...) | ("view", array, affine) | None"""
        if n in self.memo:
            return self.memo[n]
        self.memo[n] = None
        r = self._val(n, d)
        self.memo[n] = r
        return r

    def _val(self, n, d):
        a = self.a
        t = a.n[n]
        if d > 40:
            return None
        if t[0] in ("at", "with", "load"):
            return self.val(t[1], d + 1)
        if t[0] == "hofarg" and t[5]:
            s = self.source(t[5][0])
            if t[4] != 0 or s is None:
                return None
            return self.item(s, ({("round", t[1]): 1}, 0))
        if t[0] == "proj":
            st = t[2]
            if st[:2] == ("f", 0) and a.n[t[1]][0] == "proj" and a.n[t[1]][2][:2] == ("v", 1):
                c = a.n[a.n[t[1]][1]]
                if c[0] == "call" and c[2].split("::")[-1] == "next" and c[3]:
                    s = self.source(c[3][0])
                    return s and self.item(s, ({("round", c[1]): 1}, 0))
                if c[0] == "call" and c[2].split("::")[-1] == "get" and len(c[3]) == 2:
                    return ("el", root(a, c[3][0]), self.lin(c[3][1]))
                return None
            if st[0] == "i":
                x = self.val(t[1], d + 1) if a.n[t[1]][0] in ("proj", "hofarg", "load", "at") else None
                if x and x[0] == "view":
                    return ("el", x[1], addlin(x[2], self.lin(st[1])))
                return ("el", root(a, t[1]), self.lin(st[1]))
            if st[0] == "f":
                x = self.val(t[1], d + 1)
                if x and x[0] == "tuple" and st[1] + 1 < len(x):
                    return x[st[1] + 1]
        if t[0] == "call" and t[2].split("::")[-1] in ("clone", "copied", "cloned", "as_", "into", "from", "unwrap", "from_usize", "expect") and t[3]:
            return self.val(t[3][0], d + 1)
        if t[0] == "cast" and not narrows(t):
            return self.val(t[3], d + 1)
        return None

    def again(self, x):
        """an affine form of values in terms of counters and elements"""
        r = ({}, x[1])
        for k, v in x[0].items():
            y = self.lin(k) if isinstance(k, int) else ({k: 1}, 0)
            r = addlin(r, ({q: w * v for q, w in y[0].items()}, y[1] * v))
        return r

    def lin(self, n):
        """affine form over counters ("round", block), elements ("el", array, affine), lengths ("len", array) and other values"""
        a = self.a
        x = lin(a, n)
        r = ({}, x[1])
        for k, v in x[0].items():
            y = None
            t = a.n[k]
            if t[0] == "len":
                y = self.len_of(root(a, t[1]))
            else:
                q = self.val(k)
                if q and q[0] == "int":
                    y = q[1]
                elif q and q[0] == "el":
                    y = {("el", q[1], freeze(q[2])): 1}, 0
                elif t[0] == "cast" and narrows(t) and t[2] != "bool":
                    z = self.lin(t[3])
                    if self.small and z[0] and set(z[0]) <= self.small:
                        y = z
                elif t[0] == "call" and t[2].split("::")[-1] in ("from_usize", "unwrap", "expect") and t[3]:
                    y = self.lin(t[3][0])
                elif t[0] == "proj" and t[2][:2] == ("f", 0) and a.n[t[1]][0] == "proj":
                    c = a.n[a.n[t[1]][1]]
                    if c[0] == "call" and c[2].split("::")[-1] in ("from_usize", "from_u64", "from_i32", "from_i64", "try_from") and c[3]:
                        y = self.lin(c[3][0])
            if y is None:
                y = {k: 1}, 0
            r = addlin(r, ({q: w * v for q, w in y[0].items()}, y[1] * v))
        return r


def freeze(x):
    return tuple(sorted(x[0].items(), key=repr)), x[1]


def thaw(x):
    return dict(x[0]), x[1]


class Known(Facts):
    """facts about counters and elements"""

    def __init__(self, s):
        super().__init__(None, s.a)
        self.s = s

    def copy(self):
        f = Known(self.s)
        f.sub, f.iv, f.ne, f.raw, f.bad = dict(self.sub), dict(self.iv), list(self.ne), list(self.raw), self.bad
        return f

    def simp(self, x):
        return super().simp(self.s.again(x))


EFFECTS = {"swap", "remove", "insert", "copy_within", "rotate_right", "rotate_left", "reverse", "fill"}


class Loops(Sym):
    """what loops do to arrays"""

    def __init__(self, c, a):
        super().__init__(a)
        self.c = c
        self.bodies, self.paths_, self.rounds_ = {}, {}, {}

    def body(self, h):
        if h not in self.bodies:
            self.bodies[h] = body_of(self.a, h)
        return self.bodies[h]

    def inner(self, h):
        return {x for x in self.a.g.heads if x != h and x in self.body(h)}

    def paths(self, h):
        if h not in self.paths_:
            ps = loop_paths(self.c, self.a, h, self.body(h))
            self.paths_[h] = None if ps is None else [Rounds(self.a, p.blocks, p.env, self.inner(h)) for p in ps]
        return self.paths_[h]

    def _val(self, n, d):
        t = self.a.n[n]
        if t[0] == "phi" and t[1] in self.a.g.heads and self.a.flat.local_ty[t[2]] in list(MAX) + ["isize", "i64", "i32"]:
            s = self.step(n)
            if s:
                self.nodes.setdefault(("round", t[1]), set()).add(n)
                return ("int", addlin(s[0], ({("round", t[1]): s[1]}, 0)))
        return super()._val(n, d)

    def step(self, n):
        """(start, step) of a number that changes by 1 in every round of its loop"""
        a, t = self.a, self.a.n[n]
        ins = a.g.phis.get((t[1], t[2]), {})
        out = {a.strip(o) for p, o in ins.items() if not a.dominates(t[1], p)}
        back = {a.strip(o) for p, o in ins.items() if a.dominates(t[1], p)}
        if len(out) != 1 or len(back) != 1:
            return None
        x = lin(a, back.pop())
        y = addlin(x, ({n: 1}, 0), -1)
        if y[0] or y[1] not in (1, -1):
            return None
        return self.lin(out.pop()), y[1]

    def rounds(self, h):
        """how often the body of a loop is run; None if that is not known"""
        if h not in self.rounds_:
            self.rounds_[h] = None
            self.rounds_[h] = self._rounds(h)
        return self.rounds_[h]

    def _rounds(self, h):
        a = self.a
        ex = [(b, s) for b in self.body(h) for s in a.succ[b] if s not in self.body(h) and s in a.normal]
        if len(ex) != 1:
            return None
        b, s = ex[0]
        if b not in a.g.cond:
            return None
        cnd = a.g.cond[b]
        t = a.n[cnd]
        if t[0] == "discr":
            x = a.n[a.strip(t[1])]
            if x[0] == "call" and x[2].split("::")[-1] == "next" and x[3]:
                src = self.source(x[3][0])
                return src and self.length(src)
        tt = a.flat.blocks[b].t
        vals = [v for v, x in tt.get("ts", ()) if x.id == s]
        leave = bool(vals[0]) if vals else True
        while t[0] == "not":
            t, leave = a.n[t[1]], not leave
        if t[0] != "op" or t[1] not in ("Lt", "Le", "Eq", "Ne"):
            return None
        x, y = self.lin(t[3]), self.lin(t[4])
        D = addlin(y, x, -1)
        r = ("round", h)
        if t[1] in ("Lt", "Le"):
            if leave:
                # left when x < y (x <= y): goes on while x >= y (x > y)
                D = neg(D)
                D = addlin(D, ({}, 1)) if t[1] == "Lt" else D
            elif t[1] == "Le":
                D = addlin(D, ({}, 1))
        elif leave != (t[1] == "Eq"):
            return None
        elif D[0].get(r) == 1:
            D = neg(D)
        if D[0].get(r) != -1:
            return None
        return {k: v for k, v in D[0].items() if k != r}, D[1]

    def facts(self, p):
        """what the branches of a path say, in terms of counters and elements"""
        f = Known(self)
        for cnd, v, b in p.conds():
            f.learn(self.a, cnd, v)
        return f

    def writes(self, n, path=None, d=0):
        """(what the array is at first, [("set", index, value) | ("push", value) | ("loop", head, [(path, writes)])]), None if not understood"""
        a = self.a
        if path is not None:
            n = path.resolve(n)
        n = a.strip(n)
        t = a.n[n]
        if d > 30:
            return None
        if t[0] == "store":
            w = self.writes(t[1], path, d + 1)
            return w and (w[0], w[1] + [("set", t[2], t[3])])
        if t[0] == "eff" and t[2] == 0:
            e = a.n[t[1]]
            if e[0] == "call" and e[2].split("::")[-1] == "push" and len(e[3]) == 2:
                w = self.writes(t[3], path, d + 1)
                return w and (w[0], w[1] + [("push", e[3][1])])
            return n, []
        if t[0] == "phi" and t[1] in a.g.heads and (path is None or t[1] in path.inner):
            h = t[1]
            ins = a.g.phis.get((h, t[2]), {})
            out = {o for p, o in ins.items() if not a.dominates(h, p)}
            if len(out) != 1:
                return None
            w = self.writes(out.pop(), path, d + 1)
            r = self.round_writes(h, t[2], n, d)
            if w is None or r is None:
                return None
            return w[0], w[1] + [("loop", h, r, n)]
        return n, []

    def round_writes(self, h, l, n, d=0):
        a = self.a
        ps = self.paths(h)
        if ps is None:
            return None
        r = []
        for p in ps:
            if p.blocks[-1] != h:
                continue
            o = a.g.phis.get((h, l), {}).get(p.blocks[-2])
            if o is None:
                continue
            v = a.strip(p.resolve(o))
            q = self.chain(v, n, p, d)
            if q is None:
                return None
            r.append((p, q))
        return r

    def chain(self, v, base, p, d):
        """the writes that lead from `base` to `v`"""
        out = []
        a = self.a
        for _ in range(40):
            v = a.strip(v)
            if v == base:
                return out[::-1]
            t = a.n[v]
            if t[0] == "store":
                out.append(("set", t[2], t[3]))
                v = t[1]
            elif t[0] == "eff" and t[2] == 0 and a.n[t[1]][0] == "call" and a.n[t[1]][2].split("::")[-1] == "push" and len(a.n[t[1]][3]) == 2:
                out.append(("push", a.n[t[1]][3][1]))
                v = t[3]
            elif t[0] == "eff" and t[2] == 0 and a.n[t[1]][0] == "call" and a.n[t[1]][2].split("::")[-1] in EFFECTS:
                out.append(("eff", a.n[t[1]][2].split("::")[-1], t[1]))
                v = t[3]
            elif t[0] == "phi" and t[1] in p.inner and d < 4:
                ins = a.g.phis.get((t[1], t[2]), {})
                o = {x for q, x in ins.items() if not a.dominates(t[1], q)}
                r = self.round_writes(t[1], t[2], v, d + 1)
                if len(o) != 1 or r is None:
                    return None
                if all(not q for _, q in r):
                    v = p.resolve(o.pop())
                    continue
                out.append(("loop", t[1], r, v))
                v = p.resolve(o.pop())
            else:
                return None
        return None


def flat_atoms(x):
    """the atoms of an affine form, those inside element positions included"""
    out = set()
    for k in x[0]:
        out.add(k)
        if isinstance(k, tuple) and k[0] == "el":
            out |= flat_atoms(thaw(k[2]))
    return out


def known(x, atoms):
    """does the value consist of the named atoms alone?"""
    return all(k in atoms for k in x[0])


def shift(x, k, y):
    """x with the atom k replaced by the affine form y"""
    if k not in x[0]:
        return x
    v = x[0][k]
    r = ({q: w for q, w in x[0].items() if q != k}, x[1])
    return addlin(r, ({q: w * v for q, w in y[0].items()}, y[1] * v))


# ---- C31: move to front
@prop("C31", "inductive proof over the main loop of mtf from the value graph of its MIR: the table starts as the identity on 0..255, the number written is the "
      "place at which the search over the whole table found the byte read, and the stores of a round shift the entries before that place by one, "
      "in an order that loses none, and put the byte in front")
def c31(c):
    n = 0
    for prof in c.profiles():
        if "mtf" not in c.tools(prof):
            continue
        a = c.A("mtf", profile=prof)
        n += mtf_tool(c, a, Loops(c, a))
    c.counts["move-to-front tables"] = n


def mtf_tool(c, a, s):
    done = 0
    reads = {e["block"] for e in a.evs("read", "read_exact", "next", "read_u8", "fill_buf") if e["last"] != "next" or "io::Error" in e["dty"]}
    for (h, l) in sorted(a.g.phis):
        ty = a.flat.local_ty[l]
        if h not in a.g.heads or not re.match(r"(std::vec::Vec<u(8|16|32|64|size)>|\[u\d+; 256\]|std::boxed::Box<\[u\d+(; 256)?\]>)$", ty):
            continue
        if not any(e in s.body(h) for e in reads):
            continue
        n = next((i for i in range(len(a.n)) if a.n[i][:3] == ("phi", h, l)), None)
        if n is None:
            continue
        r = s.round_writes(h, l, n)
        if not r or not any(w for p, w in r):
            if r is None:
                c.sample("mtf: how the table changes was not understood")
            continue
        done += mtf_table(c, a, s, h, l, n, r)
    return done


def mtf_table(c, a, s, h, l, n, r):
    c.ok(1, "tables proved")
    w = lambda k, b, what: c.violate("mtf|%s|%s" % (a.fn(b), k), a.where(b), "mtf: " + what)
    # the table at the start
    for o in {o for p, o in a.g.phis[(h, l)].items() if not a.dominates(h, p)}:
        b0 = a.strip(o)
        src = s.source(b0) if a.n[b0][0] != "call" or a.n[b0][2].split("::")[-1] != "collect" else s.source(a.n[b0][3][0])
        if src and src[0] == "range" and (src[1] != ({}, 0) or not s.length(src)[0] and s.length(src)[1] != 256):
            w("start", h, "the table does not start as the 256 byte values in order")
        elif src and src[0] == "rev":
            w("start", h, "the table does not start in ascending order")
        elif src is None:
            ws = s.writes(o)
            if ws and ws[1]:
                for x in ws[1]:
                    if x[0] != "loop":
                        continue
                    k = s.rounds(x[1])
                    if k is not None and not k[0] and k[1] != 256:
                        w("start", h, "the table does not start with all 256 byte values")
                    for p, q in x[2]:
                        for y in q:
                            if y[0] != "loop":
                                v = s.lin(a.uncast(y[-1]))
                                i = s.lin(y[1]) if y[0] == "set" else ({("round", x[1]): 1}, 0)
                                if v != i and all(isinstance(z, tuple) and z[0] == "round" for z in v[0]):
                                    w("start", h, "the table does not start as the byte values in order")
    # a rank for every byte
    wr = {p: [x for x in p.blocks if a.events.get(x) and a.events[x]["last"] in ("write_all", "write") and not a.islog(a.events[x])
              and a.events[x]["atys"][1:] == ["&[u8]"]] for p, q in r if q}
    if any(wr.values()):
        for p, x in wr.items():
            others = [y for y in p.blocks if a.events.get(y) and a.events[y]["last"] in ("push", "write_fmt", "extend_from_slice")]
            if not x and not others:
                w("none", p.blocks[-2], "for a byte nothing is written")
            if len(x) > 1:
                w("twice", x[1], "for a byte more than its rank is written")
    # where the byte is found
    found = searches(c, a, s, h, n)
    for p, q in r:
        b = p.blocks[-2]
        if not q:
            continue
        P = None
        for k, (kind, cnode, ok, blk) in found.items():
            if blk in p.blocks:
                P, C = k, cnode
                if ok is False:
                    w("search", blk, "the search does not look for the byte read")
        if P is None:
            c.sample("mtf: the search for the byte was not understood")
            continue
        P = ({P: 1}, 0)
        cl = s.lin(C) if C is not None else None
        # what is written
        f = s.facts(p)
        (key, _), = P[0].items()
        f.iv[key] = (0, 255)
        s.small = {key}
        f.check()
        for blk in p.blocks:
            e = a.events.get(blk)
            if e and e["last"] in ("write_all", "write") and not a.islog(e) and len(e["snaps"]) > 1:
                t = a.n[a.strip(e["snaps"][1])]
                if t[0] != "agg" or len(t[2]) != 1:
                    continue
                v = p.resolve(t[2][0])
                if not same(a, s, f, s.lin(v), P, 255) and (a.g.cval(a.strip(v)) is not None or depends(a, s, v, P, C)):
                    w("rank", blk, "what is written is not the place at which the byte was found")
        # what becomes of the table
        loops = [x for x in q if x[0] == "loop"]
        sets = [x for x in q if x[0] == "set"]
        effs = [x for x in q if x[0] == "eff"]
        front = [x for x in sets if s.lin(p.resolve(x[1])) == ({}, 0)]
        args = [[a.strip(p.resolve(y)) for y in a.n[x[2]][3][1:]] for x in effs]
        names = [x[1] for x in effs]
        if len(loops) > 1 or any(x[0] == "push" for x in q) or loops and not all(len(z) < 2 and all(moves(s, v, u) for u in z) for v, z in loops[0][2]):
            continue
        if not loops and set(names) <= {"swap"}:
            hi = f.bounds(f.simp(P))[1]
            if hi is None or hi > len(sets) + len(effs):
                w("shift", b, "the entries before the place of the byte are not moved up by one")
            continue
        if names and set(names) != {"copy_within"}:
            if names == ["remove", "insert"] and not loops and not sets:
                if s.lin(args[0][0]) != P and depends(a, s, args[0][0], P, None):
                    w("remove", b, "the entry taken out is not the byte read")
                if s.lin(args[1][0])[0] == {} and s.lin(args[1][0])[1] != 0:
                    w("front", b, "the byte read is not put at the front of the table")
            continue
        if names and len(names) == 1 and not loops:
            src = s.source(args[0][0])
            if src and src[0] == "range" and (src[1] != ({}, 0) or not same(a, s, f, src[2], P, 255) and depends(a, s, args[0][0], P, None)):
                w("shift", b, "the entries moved up are not those before the place of the byte")
            if s.lin(args[0][1]) != ({}, 1) and not s.lin(args[0][1])[0]:
                w("shift", b, "the entries are moved to another place than the next")
        elif names:
            continue
        if q[-1][0] != "set" and front:
            w("order", b, "the byte is put in front before the entries are moved")
        if not front:
            w("front", b, "the byte read is not put at the front of the table")
        cl = s.lin(C) if C is not None else None
        for x in front:
            v = s.lin(p.resolve(x[2]))
            el = s.val(p.resolve(x[2]))
            if cl is not None and v != cl and el and el[0] == "el" and (el[2] != P or el[1] != n):
                w("front", b, "what is put at the front of the table is not the byte read")
        for x in sets:
            if x not in front:
                w("extra", b, "a round changes another place of the table")
        for x in loops:
            shifted(c, a, s, x, P, w, f)
    return 1


def moves(s, p, u):
    """a store of one entry of the table to another place"""
    if u[0] != "set":
        return False
    v = s.val(p.resolve(u[2]))
    return bool(v) and v[0] == "el" and any(isinstance(k, tuple) and k[0] == "round" for k in v[2][0])


def same(a, s, f, x, P, top):
    """is the value the place found, which is at most `top`?"""
    if x == P:
        return True
    for g, y in cases(a, f, x):
        y = s.again(y)
        if g.equal(y, P) is not True and not (len(y[0]) == 1 and masked(a, s, y, P, top)):
            return False
    return True


def masked(a, s, y, P, top):
    (k, v), = y[0].items()
    t = a.n[k] if isinstance(k, int) else ("",)
    while t[0] == "cast":
        k = t[3]
        t = a.n[k]
    if v != 1 or y[1] or t[0] != "op" or t[1] not in ("BitAnd", "Rem"):
        return False
    m = a.g.cval(a.strip(t[4]))
    x = t[3]
    if m is None:
        m, x = a.g.cval(a.strip(t[3])), t[4]
    return s.lin(x) == P and isinstance(m, int) and (m & 255 == 255 if t[1] == "BitAnd" else m > top)


def depends(a, s, v, P, C):
    """is the value computed from the place found (and not from something that was not understood)?"""
    (k, _), = P[0].items()
    if isinstance(k, int) and k in a.deps(v):
        return True
    x = s.lin(v)
    if k in flat_atoms(x):
        return True
    return any(isinstance(y, int) and y in a.deps(v) for y in s.nodes.get(k, ()))


def shifted(c, a, s, x, P, w, f):
    """entries 0..P-1 move up by one: from the last to the first"""
    hl, rounds = x[1], x[2]
    k = s.rounds(hl)
    rk = ("round", hl)
    for p, q in rounds:
        if len(q) != 1 or q[0][0] != "set":
            if not q:
                w("shift", p.blocks[-2], "an entry before the place of the byte is not moved")
            continue
        i, v = s.lin(p.resolve(q[0][1])), s.val(p.resolve(q[0][2]))
        if not v or v[0] != "el":
            continue
        j = v[2]
        atoms = set(P[0]) | {rk}
        if not known(i, atoms) or not known(j, atoms):
            continue
        if addlin(i, j, -1) != ({}, 1):
            w("shift", p.blocks[-2], "an entry is not moved to the next place")
            continue
        if i[0].get(rk) != -1:
            w("shift", p.blocks[-2], "the entries are overwritten before they are moved")
            continue
        if k is not None and not known(k, atoms):
            if not same(a, s, f, k, P, 255) and any(isinstance(y, int) and (set(P[0]) & a.deps(y)) for y in k[0]):
                w("shift", p.blocks[-2], "not every entry before the place of the byte is moved")
            continue
        first = shift(i, rk, ({}, 0))
        if first != P:
            w("shift", p.blocks[-2], "the entries moved do not end at the place of the byte")
        if k is not None and known(k, atoms) and shift(i, rk, addlin(k, ({}, -1))) != ({}, 1):
            w("shift", p.blocks[-2], "the entries moved do not start at the front")


def searches(c, a, s, h, n):
    """{atom of the place found: (kind, node of the byte looked for, is it compared for equality, block)} in a loop"""
    out = {}
    body = s.body(h)
    for e in a.evs("position", "rposition"):
        if e["block"] not in body:
            continue
        src = s.source(e["args"][0]) or s.source(e["snaps"][0])
        part = src and src[0] == "iter" and a.n[src[1]][0] == "slice" and root(a, a.n[src[1]][1]) == root(a, n) and cut(a, s, a.n[src[1]][2])
        if not src or src[0] != "iter" or src[1] != root(a, n) and not part:
            continue
        for i in range(len(a.n)):
            t = a.n[i]
            if t[0] == "proj" and t[2][:2] == ("f", 0) and a.n[t[1]][0] == "proj" and a.n[t[1]][1] == e["node"]:
                cn, ok = compared(a, s, e, n)
                if src[2] != ({}, 0) or part:
                    ok = False
                out[i] = ("call", cn, ok, e["block"])
    for x in s.inner(h):
        ex = [(b, y) for b in s.body(x) for y in a.succ[b] if y not in s.body(x) and y in a.normal]
        for b, y in ex:
            t = a.n[a.g.cond[b]] if b in a.g.cond else ("",)
            neg_ = False
            while t[0] == "not":
                t, neg_ = a.n[t[1]], not neg_
            if t[0] != "op" or t[1] not in ("Eq", "Ne"):
                continue
            for u, v in (t[3:5], t[4:2:-1]):
                el = s.val(u)
                if el and el[0] == "el" and el[1] == root(a, n) and el[2] == ({("round", x): 1}, 0):
                    out[("round", x)] = ("loop", v, None, b)
    return out


def cut(a, s, r):
    """does a range leave out a part of the table?"""
    t = a.n[r]
    if t[0] != "agg" or t[1][3] not in ("Range", "RangeTo", "RangeFrom"):
        return False
    lo = ({}, 0) if t[1][3] == "RangeTo" else s.lin(t[2][0])
    hi = None if t[1][3] == "RangeFrom" else s.lin(t[2][-1])
    return lo != ({}, 0) and not lo[0] or hi is not None and not hi[0] and hi[1] < 256


def compared(a, s, e, n):
    """what the closure of a search compares the elements with, and whether it looks for equality"""
    t = a.flat.blocks[e["block"]].t
    for i, o in t.get("hof", ()):
        g = o["p"]["l"]
        for p in a.pred.get(e["block"], ()):
            for q in a.pred.get(p, ()) if len(a.succ.get(p, ())) > 1 else (p,):
                v = a.g.out.get((q, p), {}).get(g)
                if v is None:
                    continue
                v = a.n[a.strip(v)]
                ng = False
                while v[0] == "not":
                    v, ng = a.n[v[1]], not ng
                if v[0] == "op" and v[1] in ("Eq", "Ne"):
                    for x, y in (v[3:5], v[4:2:-1]):
                        el = s.val(x)
                        if el and el[0] == "el" and root(a, el[1]) == root(a, n):
                            return y, (v[1] == "Eq") != ng
                if v[0] == "op" and v[1] in ("Lt", "Le"):
                    return None, False
    return None, None


# ---- C21: arrays that are defined by the suffix array
SPECS = ("bwt_from_sa", "compute_phi", "inverse_permutation", "compute_lcp")


@prop("C21", "element-wise comparison with the definition: for every loop of bwt and count_r that fills an array from the text through the suffix array, and for "
      "the library functions that derive arrays from it, the value graph gives the place written and the value in terms of the round; they must be "
      "the ones of the definition for every entry, in affine arithmetic modulo the length, and the rounds must cover the whole array")
def c21(c):
    n = 0
    for prof in c.profiles():
        for tool in ("bwt", "count_r"):
            if tool in c.tools(prof):
                a = c.A(tool, profile=prof)
                n += transform(c, a, Loops(c, a), tool)
        fns = c.world(prof).fns
        for f in SPECS:
            x = next((y for y in fns if y.startswith("stringology::") and y.split("::")[-1] == f), None)
            if x is None:
                continue
            a = c.A(x, profile=prof)
            s = Loops(c, a)
            if f == "bwt_from_sa":
                n += transform(c, a, s, f)
            else:
                n += derived(c, a, s, f)
    c.floor("arrays compared with their definition", n, 1)


def one_len(x):
    """all lengths are the same: the text, its suffix array and what is derived from it are equally long"""
    r = ({}, x[1])
    for k, v in x[0].items():
        if isinstance(k, tuple) and k[0] == "len":
            k = "n"
        elif isinstance(k, tuple) and k[0] == "el":
            k = (k[0], k[1], freeze(one_len(thaw(k[2]))))
        r = addlin(r, ({k: v}, 0))
    return r


def odd(a, s, k):
    """is an atom a part of a number cut off or masked out, which differs from the number for some rounds?"""
    if not isinstance(k, int):
        return False
    t = a.n[k]
    if t[0] == "cast" and t[2] in ("u8", "i8", "u16", "i16") and a.cuts(t):
        x = s.lin(t[3])
    elif t[0] == "op" and t[1] in ("Shr", "BitAnd", "BitXor", "Div", "Rem") and a.g.cval(a.strip(t[4])) is not None:
        v = a.g.cval(a.strip(t[4]))
        if not isinstance(v, int) or v == 0 or t[1] in ("Div", "Rem") and v == 1 or t[1] == "BitAnd" and v >= 0x7fffffff:
            return False
        x = s.lin(t[3])
    else:
        return False
    x = one_len(x)
    return bool(x[0]) and all(q == "n" or isinstance(q, tuple) and q[0] in ("round", "el") or odd(a, s, q) for q in x[0]) and set(x[0]) != {"n"}


def odds(a, s, ks):
    return {k for k in ks if odd(a, s, k)}


def modular(a, s, p, f, node, at, minus=1):
    """is the position the one before `at`, cyclically? True, False, None: not known.  at: affine, in 0..n-1"""
    node = a.uncast(node)
    t = a.n[node]
    N = ({"n": 1}, 0)
    if t[0] == "op" and t[1] == "Rem":
        m = one_len(s.lin(p.resolve(t[4]) if p else t[4]))
        x = one_len(s.lin(p.resolve(t[3]) if p else t[3]))
        d = addlin(x, at, -1)
        if m != N:
            return False if known(m, {"n"}) else None
        if set(d[0]) <= {"n"} and d[1] == -minus and d[0].get("n", 0) >= 1:
            return True
        return False if set(d[0]) <= {"n"} | set(at[0]) | odds(a, s, d[0]) else None
    if t[0] == "call" and t[2].split("::")[-1] == "saturating_sub" and len(t[3]) == 2 and one_len(s.lin(t[3][0])) == at:
        low = f.copy() if f is not None else None
        if low is None:
            return None
        low.rel(at, "==")
        return low.bad
    x = one_len(s.lin(node))
    d = addlin(x, at, -1)
    if f is not None:
        # decided by a branch
        low = f.copy()
        if d == ({}, -minus):
            low.rel(at, "==")
            return True if low.bad else False
        if addlin(x, N, -1) == ({}, -minus):
            low.rel(at, "!=")
            low2 = f.copy()
            low2.rel((neg(at)[0], neg(at)[1] + 1), "<=")
            return True if low.bad or low2.bad else False
    elif d == ({}, -minus) and not at[0]:
        return at[1] >= minus
    elif not at[0] and at[1] == 0:
        return addlin(x, N, -1) == ({}, -minus) if set(x[0]) <= {"n"} else None
    return False if set(x[0]) <= set(at[0]) | {"n"} | odds(a, s, x[0]) else None


def covers(s, h, lo=0):
    """does the loop run for every entry from `lo` on? True, False, None"""
    k = s.rounds(h)
    if k is None:
        return None
    k = one_len(k)
    if k == ({"n": 1}, -lo):
        return True
    return False if set(k[0]) <= {"n"} else None


def transform(c, a, s, tool):
    """bwt[i] = text[sa[i] - 1], cyclically, for all i"""
    done = 0
    for (h, l) in sorted(a.g.phis):
        ty = a.flat.local_ty[l]
        if h not in a.g.heads or not re.match(r"(&mut )?(std::vec::Vec<(u8|[A-Z])>|\[(u8|[A-Z])\])$", ty):
            continue
        n = next((i for i in range(len(a.n)) if a.n[i][:3] == ("phi", h, l)), None)
        if n is None or s.inner(h):
            continue
        r = s.round_writes(h, l, n)
        if not r:
            continue
        # which array of positions is followed
        via = set()
        for p, q in r:
            for x in q:
                v = s.val(p.resolve(x[-1])) if x[0] in ("set", "push") else None
                if v and v[0] == "el":
                    for k in v[2][0]:
                        via |= positions(a, s, k, v[1])
        if not via:
            continue
        done += 1
        c.ok(1, "loops that gather the last column")
        w = lambda k, b, what: c.violate("%s|%s|%s" % (tool, a.fn(b), k), a.where(b), "%s: %s" % (tool, what))
        cov = covers(s, h)
        if cov is False:
            w("range", h, "not every entry of the last column is filled")
        for p, q in r:
            b = p.blocks[-2]
            if not q:
                d = default(a, n)
                node = index_node(a, d) if d is not None else None
                oks = [modular(a, s, p, s.facts(p), node, ({("el", S, freeze(one_len(thaw(i)))): 1}, 0)) for S, i in via] if node is not None else [None if d is not None and a.g.cval(a.strip(d)) is None else False]
                if True not in oks and (d is None or None not in oks):
                    w("none", b, "an entry of the last column is left out")
                continue
            if len(q) != 1:
                continue
            x = q[0]
            if x[0] not in ("set", "push"):
                continue
            v = s.val(p.resolve(x[-1]))
            if not v or v[0] != "el":
                if a.g.cval(a.strip(p.resolve(x[-1]))) is not None or a.n[a.strip(p.resolve(x[-1]))][0] == "op":
                    w("value", b, "an entry of the last column is not a byte of the text")
                continue
            node = index_node(a, p.resolve(x[-1]))
            f = s.facts(p)
            best = None
            for S, i in via:
                i = thaw(i)
                at = ({("el", S, freeze(one_len(i))): 1}, 0)
                ok = modular(a, s, p, f, node, at) if node is not None else None
                best = ok if best is None or ok else best
                place = one_len(s.lin(p.resolve(x[1]))) if x[0] == "set" else ({("round", h): 1}, 0)
                d = addlin(place, one_len(i), -1)
                if not {k for k in flat_atoms(d) if not (isinstance(k, tuple) and k[0] == "el" and k[1] == S)} - {"n", ("round", h)} and d != ({}, 0) and len(via) == 1:
                    w("place", b, "the byte before a suffix is stored at another place than that of the suffix")
            if best is False:
                w("letter", b, "an entry of the last column is not the byte before its suffix")
    return done


def default(a, n):
    """what the entries of an array are before a loop fills them"""
    t = a.n[n]
    ops = {root(a, o) for p, o in a.g.phis.get((t[1], t[2]), {}).items() if not a.dominates(t[1], p)}
    if len(ops) == 1:
        t = a.n[ops.pop()]
        if t[0] == "call" and t[2].split("::")[-1] == "from_elem":
            return t[3][0]
    return None


def positions(a, s, k, text):
    """{(array, position)} of the elements an index is computed from"""
    if isinstance(k, tuple) and k[0] == "el":
        return {(k[1], k[2])} if k[1] != text else set()
    out = set()
    if isinstance(k, int):
        t = a.n[k]
        if t[0] == "op":
            for x in t[3:5]:
                for q in s.lin(x)[0]:
                    if q != k:
                        out |= positions(a, s, q, text)
        elif t[0] == "cast":
            for q in s.lin(t[3])[0]:
                if q != k:
                    out |= positions(a, s, q, text)
        elif t[0] == "call" and t[2].split("::")[-1] in ("saturating_sub", "wrapping_sub", "wrapping_add", "max", "min"):
            for x in t[3]:
                for q in s.lin(x)[0]:
                    if q != k:
                        out |= positions(a, s, q, text)
    return out


def index_node(a, n):
    """the node of the index in array[index]"""
    for _ in range(20):
        t = a.n[n]
        if t[0] in ("at", "with", "load"):
            n = t[1]
        elif t[0] == "cast":
            n = t[3]
        elif t[0] == "call" and t[2].split("::")[-1] in ("clone", "copied", "cloned", "unwrap", "expect") and t[3]:
            n = t[3][0]
        elif t[0] == "proj" and t[2][0] == "i":
            return t[2][1]
        elif t[0] == "proj" and t[2][0] in "fv":
            c = a.n[n]
            while c[0] == "proj":
                c = a.n[c[1]]
            if c[0] == "call" and c[2].split("::")[-1] == "get" and len(c[3]) == 2:
                return c[3][1]
            return None
        else:
            return None
    return None


def derived(c, a, s, f):
    """phi[sa[i]] = sa[i - 1] cyclically; inverse[p[i]] = i; lcp[i] = plcp[sa[i]]"""
    v = a.g.instate.get(a.ret, {}).get(a.flat.ret_gid)
    ws = s.writes(v) if v is not None else None
    if not ws or not ws[1]:
        c.sample("%s: how the array is filled was not understood" % f)
        return 0
    c.ok(1, "derived arrays")
    w = lambda k, b, what: c.violate("%s|%s|%s" % (f, a.fn(b), k), a.where(b), "%s: %s" % (f, what))
    seen, clear = [], True
    for x in ws[1]:
        if x[0] == "loop":
            for p, q in x[2]:
                if not q:
                    w("none", p.blocks[-2], "a round fills no entry")
                if len(q) != 1:
                    clear = False
                    continue
                e = entry(c, a, s, f, p, q[0], x[1], w)
                clear &= e is not None
                seen.append((x[1], e))
        else:
            e = entry(c, a, s, f, None, x, None, w)
            clear &= e is not None
            seen.append((None, e))
    # all entries
    if clear and not any(v["key"].startswith(f + "|") for v in c.violations):
        got = set()
        for h, e in seen:
            if h is None:
                got.add(("one", freeze(e)))
            else:
                k = s.rounds(h)
                if k is None or e[0].get(("round", h)) not in (1, -1):
                    return 1
                u = one_len(shift(e, ("round", h), ({}, 0)))
                z = one_len(shift(e, ("round", h), addlin(k, ({}, -1))))
                got.add(("from",) + tuple(sorted((freeze(u), freeze(z)), key=repr)))
        first, last = freeze(({}, 0)), freeze(({"n": 1}, -1))
        full = {("from",) + tuple(sorted((first, last), key=repr))}
        rest = {("from",) + tuple(sorted((freeze(({}, 1)), last), key=repr)), ("one", first)}
        front = {("from",) + tuple(sorted((first, freeze(({"n": 1}, -2))), key=repr)), ("one", last)}
        if not (full <= got or rest <= got or front <= got) and all(set(dict(y[0])) <= {"n"} for g in got for y in g[1:]):
            w("range", a.entry, "not every entry is filled")
    return 1


def strange(a, s, x, h):
    """are there values in an affine form that are not known in terms of the rounds?"""
    k = flat_atoms(x) - {"n", ("round", h)}
    return k - odds(a, s, k)


def entry(c, a, s, f, p, x, h, w):
    """the number of the entry that one store fills, None if it was not understood"""
    b = p.blocks[-2] if p else a.entry
    R = (lambda y: p.resolve(y)) if p else (lambda y: y)
    if x[0] == "push":
        i = ({("round", h): 1}, 0) if h is not None else None
        if i is None:
            return None
        iv = None
    else:
        i = one_len(s.lin(R(x[1])))
        iv = s.val(R(x[1])) or single(i)
    if f == "compute_lcp":
        v = s.val(R(x[-1]))
        if not v or v[0] != "el":
            return None
        at = single(one_len(v[2]))
        if not at or at[0] != "el":
            if not strange(a, s, one_len(v[2]), h):
                w("value", b, "an entry is not the one of its suffix")
            return None
        if one_len(at[2]) != i:
            d = addlin(one_len(at[2]), i, -1)
            if not strange(a, s, d, h):
                w("value", b, "an entry is not the one of its suffix")
            return None
        return i
    if not iv or iv[0] != "el":
        if not strange(a, s, i, h):
            w("place", b, "an entry is stored at its rank, not at its position")
        return None
    e = one_len(iv[2])
    if f == "inverse_permutation":
        v = one_len(s.lin(R(x[-1])))
        if v != e:
            if not strange(a, s, addlin(v, e, -1), h):
                w("value", b, "an entry is not the rank of its position")
            return None
        return e
    v = s.val(R(x[-1]))
    if not v or v[0] != "el" or v[1] != iv[1]:
        return None
    node = index_node(a, R(x[-1]))
    # the round numbers of a loop over lo..hi are at least lo
    fa = s.facts(p) if p else None
    x_ = one_len(v[2])
    if addlin(e, x_, -1) == ({}, 1):
        return e
    ok = modular(a, s, p, fa, node, e) if node is not None else None
    if ok is None and not strange(a, s, addlin(x_, e, -1), h):
        ok = not e[0] and e[1] == 0 and addlin(x_, ({"n": 1}, -1), -1) == ({}, 0)
    if ok is False:
        w("value", b, "an entry is not the position before it in the suffix array")
        return None
    return e if ok else None


def single(x):
    """("el", array, position) if an affine form is one element"""
    if len(x[0]) == 1 and not x[1]:
        (k, v), = x[0].items()
        if v == 1 and isinstance(k, tuple) and k[0] == "el":
            return ("el", k[1], thaw(k[2]))
    return None


# ---- C28: the factors that lyndonfactorization writes
@prop("C28", "inductive proof over the loop of lyndonfactorization that writes the factors, from the value graph of its MIR: the first part of the text written "
      "starts at 0, every later one where the one before it ends, each ends right after the end position of its factor, the rounds cover all factors, and "
      "only a last factor that is the byte 0 may be left out; numbers and positions in the headings are those of the part written")
def c28(c):
    n = 0
    for prof in c.profiles():
        tool = "lyndonfactorization"
        if tool in c.tools(prof):
            a = c.A(tool, {"outfilename": SOME()}, profile=prof)
            n += lyndon_file(c, a, Loops(c, a), tool)
    c.counts["factor files"] = n


def text_part(a, s, n):
    """(text, start, end) of a part of a text"""
    n = a.strip(n)
    t = a.n[n]
    if t[0] == "slice":
        x, r = t[1], a.n[a.strip(t[2])]
        if r[0] != "agg" or r[1][3] not in ("Range", "RangeTo", "RangeFrom"):
            if r[0] == "call" and r[2].endswith("RangeInclusive::new") and len(r[3]) == 2:
                return a.strip(x), r[3][0], (r[3][1], 1)
            return None
        return a.strip(x), None if r[1][3] == "RangeTo" else r[2][0], (None if r[1][3] == "RangeFrom" else r[2][-1], 0)
    return None


def lyndon_file(c, a, s, tool):
    outs = {}
    for e in a.evs("write_all", "write"):
        if a.islog(e) or len(e["snaps"]) < 2:
            continue
        p = text_part(a, s, e["snaps"][1])
        if p:
            outs[e["block"]] = p
    inloop = {}
    for b in outs:
        hs = [h for h in a.g.heads if b in s.body(h) and len(s.body(h)) > 1]
        if hs:
            inloop.setdefault(min(hs, key=lambda h: len(s.body(h))), []).append(b)
    if len(inloop) != 1:
        c.sample("%s: the loop that writes the factors was not understood" % tool)
        return 0
    (h, bs), = inloop.items()
    nx = [e for e in a.evs("next") if e["block"] in s.body(h) and not any(e["block"] in s.body(x) for x in s.inner(h))]
    src = s.source(nx[0]["args"][0]) or s.source(nx[0]["snaps"][0]) if len(nx) == 1 else None
    L = src and s.length(src)
    if len(nx) == 1 and src is None:
        for e in a.evs("step_by", "filter", "filter_map", "skip_while", "take_while"):
            if e["node"] in a.deps(nx[0]["node"]):
                c.violate("%s|%s|%s" % (tool, a.fn(h), e["last"]), a.where(h), "%s: %s does not pass on every factor" % (tool, e["last"]))
    ps = s.paths(h)
    if not ps or s.inner(h):
        return 0
    w = lambda k, b, what: c.violate("%s|%s|%s" % (tool, a.fn(b), k), a.where(b), "%s: %s" % (tool, what))
    r = ("round", h)
    pre = sorted((b for b in outs if b not in s.body(h) and h in a.reach_from(b)), key=lambda b: len(a.reach_from(b)), reverse=True)
    post = [b for b in outs if b not in s.body(h) and b not in pre]
    if len(pre) > 1 or post:
        return 0
    zero = ({}, 0)

    def ends(b, p=None):
        t, x, (y, k) = outs[b]
        R = p.resolve if p else (lambda z: z)
        lo = zero if x is None else s.lin(R(x))
        hi = s.len_of(root(a, t)) if y is None else addlin(s.lin(R(y)), ({}, k))
        return lo, hi

    # does the part before the loop always come?
    c.ok(1, "factor files")
    at = zero
    if pre:
        lo, hi = ends(pre[0])
        if lo != zero and plain(lo):
            w("start", pre[0], "the first factor written does not start at the beginning of the text")
        if not plain(hi):
            return 1
        at = hi
    for p in ps:
        got = [(i, b) for i, b in enumerate(p.blocks[1:], 1) if b in outs and (i < len(p.blocks) - 1 or p.blocks[-1] != h)]
        back = p.blocks[-1] == h
        if not back and p.blocks[-1] not in a.normal:
            continue
        cs = [(cnd, v) for cnd, v, b in p.conds()]
        some = not nx or any(a.n[cnd][0] == "discr" and a.strip(a.n[cnd][1]) == nx[0]["node"] and v == 1 for cnd, v in cs)
        if not got:
            if not some or not nx:
                continue
            # a factor is left out: allowed for a last factor that is the byte 0
            if not (last_round(s, p, cs, r, L) and zero_byte(a, s, p, cs)):
                w("skip", p.blocks[-2], "a factor other than a last byte 0 can be left out")
            continue
        if len(got) > 1:
            continue
        b = got[0][1]
        lo, hi = ends(b, p)
        if not back:
            w("early", p.blocks[-2], "the loop can end before the last factor is written")
            continue
        # the part before starts the first round, the end of a round the next
        if plain(lo) and plain(hi):
            nxt = shift_all(lo, r, ({r: 1}, 1))
            if nxt != hi:
                w("gap", b, "the part of the text written does not start where the one before ends")
            if shift_all(lo, r, zero) != at:
                w("first", b, "the first part written in the loop does not start where the text written before ends")
        elif plain(hi):
            t, x, _ = outs[b]
            x = a.strip(x) if x is not None else None
            if x is not None and a.n[x][0] == "phi" and a.n[x][1] == h:
                ins = a.g.phis[(h, a.n[x][2])]
                o = ins.get(p.blocks[-2])
                if o is not None:
                    v = s.lin(p.resolve(o))
                    if plain(v) and v != hi:
                        w("gap", b, "the next part of the text does not start where this one ends")
                for o in [o for q, o in ins.items() if not a.dominates(h, q)]:
                    if plain(s.lin(o)) and s.lin(o) != at:
                        w("first", b, "the first part written in the loop does not start where the text written before ends")
        if not plain(hi) and plain(lo) and any(isinstance(k, int) and extreme(a, k) for k in hi[0]):
            ys = [s.again(y) for g, y in cases(a, s.facts(p), hi)]
            if all(plain(y) for y in ys) and len({freeze(y) for y in ys}) > 1:
                w("end", b, "a part of the text written can end before its factor")
        if plain(hi) and L is not None:
            z = shift_all(hi, r, addlin(L, ({}, -1)))
            el = [k for k in z[0] if isinstance(k, tuple) and k[0] == "el"]
            if len(el) == 1 and z[1] == 1 and len(z[0]) == 1:
                if thaw(el[0][2]) != ({("len", el[0][1]): 1}, -1) and set(thaw(el[0][2])[0]) <= {("len", el[0][1])}:
                    w("last", b, "the last part written is not that of the last factor")
            elif len(el) == 1 and len(z[0]) == 1:
                w("end", b, "a part of the text written does not end with its factor")
        # headings
        for j in p.blocks[1:]:
            e = a.events.get(j)
            if not e or a.islog(e) or e["last"] != "write_fmt":
                continue
            parts = a.fmt(e["snaps"][-1])
            heading(c, a, s, p, parts, lo, hi, r, 2 if pre else 1, w, j)
    return 1


def heading(c, a, s, p, parts, lo, hi, r, first, w, b):
    args = [q for q in parts or () if q[0] == "arg"]
    lits = [q[1] for q in parts or () if q[0] == "lit"]
    if not args or not lits or b"Factor" not in lits[0]:
        return
    vals = [s.lin(p.resolve(q[1])) for q in args]
    if not all(plain(v) for v in vals):
        return
    if vals[0] != ({r: 1}, first) and set(vals[0][0]) <= {r}:
        w("number", b, "the number in the heading is not that of the factor")
    if len(vals) == 3 and plain(lo) and plain(hi) and (vals[1] != lo or vals[2] != hi):
        w("positions", b, "the positions in the heading are not those of the part written")


def plain(x):
    """counters, lengths and elements alone?"""
    return all(isinstance(k, tuple) for k in flat_atoms(x))


def shift_all(x, k, y):
    """an affine form with the counter k replaced, in the positions of elements too"""
    out = ({}, x[1])
    for q, v in x[0].items():
        if q == k:
            z = y
        elif isinstance(q, tuple) and q[0] == "el":
            z = {("el", q[1], freeze(shift_all(thaw(q[2]), k, y))): 1}, 0
        else:
            z = {q: 1}, 0
        out = addlin(out, ({a: w * v for a, w in z[0].items()}, z[1] * v))
    return out


def last_round(s, p, cs, r, L):
    """is the path taken in the last round only?"""
    if L is None:
        return True
    f = s.facts(p)
    return f.zero(addlin(({r: 1}, 1), L, -1)) is True


def zero_byte(a, s, p, cs):
    """has a byte been found to be 0?"""
    for cnd, v in cs:
        t = a.n[cnd]
        while t[0] == "not" and v in (0, 1):
            t, v = a.n[t[1]], 1 - v
        if t[0] == "op" and t[1] in ("Eq", "Ne") and v == (t[1] == "Eq"):
            for x, y in (t[3:5], t[4:2:-1]):
                e = s.val(x)
                if a.g.cval(a.strip(y)) == 0 and e and e[0] == "el" and t[2] in ("u8", "&u8"):
                    return True
                if a.n[a.strip(x)][0] in ("agg", "slice", "call", "ptrs", "bytes"):
                    return True
        elif t[0] == "op" and t[2] == "bool" or t[0] not in ("op", "discr", "phi") and v == 0:
            return True
        elif t[0] == "op" and t[1] in ("Eq", "Ne") and (a.n[a.strip(t[3])][0] in ("agg", "slice", "call") or t[2] not in ("usize", "u8")):
            return True
        elif t[0] == "call":
            return True
    return False
