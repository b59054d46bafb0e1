"""Encoders that work byte by byte, proved by induction over the input: C20 (run lengths), C19 (escaping)."""
import re
from common import *
from reg import prop
from paths import walk, lin, addlin, Facts, checked
from p_struct import eof_value

CUR = "cur"


def data_value(e):
    """what the call returns when it delivers a byte"""
    if e["last"] == "read":
        return ("V", 0, (1,))
    if e["last"] == "next":
        return ("V", 1, (("V", 0, (None,)),))
    return None


class Stream:
    """the paths between the reads of a tool"""

    def __init__(self, c, a):
        self.a = a
        self.ex = c.explorer(a, end_extras(a))
        self.reads = {e["block"]: e for e in a.evs(log=True) if not e.get("modeled") and eof_value(e) is not None and data_value(e)}
        self.ok = bool(self.reads) and not any(e["last"] in ("read_to_end", "read_to_string", "read_exact", "fill_buf", "read_line", "read_until")
                                               and not e.get("modeled") for e in a.evs(log=True))
        for e in self.reads.values():
            if e["last"] == "read" and not self.onebyte(e):
                self.ok = False
        self._canon = {}
        self.inv = {}

    def onebyte(self, e):
        b = self.a.strip(e["snaps"][-1])
        t = self.a.n[b]
        return t[0] == "agg" and t[1][0] == "array" and len(t[2]) == 1 or t[0] == "repeat" and "; 1]" in " ".join(e["atys"]) or \
            "; 1]" in " ".join(e["atys"])

    def isbyte(self, n, r):
        """is n the byte that the read in block r delivered?"""
        k = (n, r)
        if k not in self._canon:
            self._canon[k] = self._isbyte(n, r)
        return self._canon[k]

    def _isbyte(self, n, r):
        a, e = self.a, self.reads[r]
        n = a.strip(n)
        t = a.n[n]
        if t[0] == "cast":
            return self.isbyte(t[3], r)
        if e["last"] == "read":
            if t[0] == "proj" and t[2][0] == "i":
                x = a.strip(t[1])
                while a.n[x][0] in ("slice", "load"):
                    x = a.strip(a.n[x][1]) if a.n[x][0] == "slice" else a.strip(a.n[x][2][0]) if len(a.n[x][2]) == 1 else -1
                    if x == -1:
                        return False
                y = a.n[x]
                return y[0] == "eff" and y[1] == e["node"]
            return False
        d = 0
        while t[0] == "proj" and t[2][0] in "vf":
            d += 1
            n = a.strip(t[1])
            t = a.n[n]
        return n == e["node"] and d >= 4

    def canon(self, r):
        def f(n):
            return CUR if n == CUR or isinstance(n, int) and r is not None and self.isbyte(n, r) else n
        return f

    def paths(self, r, val):
        out = []
        for s in self.a.succ[r]:
            p = walk(self.a, self.ex, s, set(self.reads), self.ex.enter(r, s, {self.reads[r]["node"]: val}), pre=(r,))
            if p is None:
                return None
            out += p
        return [p for p in out if self.keep(p)]

    def entry(self):
        p = walk(self.a, self.ex, self.a.entry, set(self.reads), {})
        return None if p is None else [x for x in p if self.keep(x)]

    def keep(self, p):
        a = self.a
        b = p.blocks[-1]
        if b in self.reads and b not in a.term:
            return True
        k, x = a.term.get(b, ("stop", None))
        return k == "ret" or k == "exit" and a.g.cval(x) in (0, None)

    # ---- what a path writes
    def writes(self, p):
        """list of items ('b', node) for a byte, ('s', node) a char, ('d', node) a number in decimal; None if not understood"""
        a, out = self.a, []
        for i, b in enumerate(p.blocks[:-1]):
            e = a.events.get(b)
            if e is None or i == 0 and b in self.reads:
                continue
            if e.get("modeled") or a.islog(e):
                continue
            nm, last = e["name"], e["last"]
            w = "io::Write" in nm or "io::Write" in e["fun"].get("trait", "") or last in ("_print",)
            if not w or last in ("flush", "by_ref", "get_ref", "get_mut", "into_inner"):
                continue
            if last == "write_all":
                bs = self.bytes(p, e["snaps"][1], i)
                if bs is None:
                    return None
                out += bs
            elif last in ("write_fmt", "_print"):
                ps = a.fmt(e["args"][-1])
                if ps is None:
                    return None
                for q in ps:
                    if q[0] == "lit":
                        out += [("b", a.g.const("u8", x)) for x in (q[1] if isinstance(q[1], bytes) else q[1].encode())]
                    elif q[2] == "display":
                        n = p.resolve(q[1], i)
                        t = a.n[a.strip(n)]
                        out.append(("s" if t[0] == "cast" and t[2] == "char" else "d", n))
                    else:
                        return None
            else:
                return None
        return out

    def bytes(self, p, n, i):
        a = self.a
        n = a.strip(n)
        t = a.n[n]
        bs = a.g.cbytes(n)
        if bs is not None:
            return [("b", a.g.const("u8", x)) for x in bs]
        if t[0] == "agg" and t[1][0] == "array":
            return [("b", p.resolve(x, i)) for x in t[2]]
        if t[0] == "repeat":
            return None
        r = p.resolve(n, i)
        if r != n and a.n[a.strip(r)][0] in ("agg", "const"):
            return self.bytes(p, r, i)
        if t[0] == "call" and len(t[3]) == 1 and t[2].split("::")[-1] in ("into_vec", "box_assume_init_into_vec_unsafe", "to_vec", "from", "as_slice", "as_ref",
                                                                          "deref", "from_ref", "into", "to_owned", "clone"):
            return self.bytes(p, t[3][0], i)
        if t[0] == "slice" and a.n[t[2]][0] == "agg" and "RangeFull" in str(a.n[t[2]][1]):
            return self.bytes(p, t[1], i)
        if t[0] == "eff":
            k = a.n[t[1]]
            last = k[2].split("::")[-1] if k[0] == "call" else ""
            prev = self.bytes(p, t[3], i)
            if prev is None:
                return None
            if last == "push":
                return prev + [("b", p.resolve(k[3][1], i))]
            if last in ("extend_from_slice", "extend"):
                more = self.bytes(p, k[3][1], i)
                return None if more is None else prev + more
            return None
        if t[0] == "call" and t[2].split("::")[-1] in ("new", "with_capacity") and "Vec" in t[2]:
            return []
        return None

    def invariants(self, steps, ends, start):
        """bounds of counters that hold at every read: candidates from the constants compared with, kept if they are inductive"""
        a = self.a
        cand = {}
        for r in self.reads:
            for p in steps[r] + ends[r]:
                for cn, v, b in p.conds():
                    t = a.n[cn]
                    k = checked(a, a.strip(t[1])) if t[0] == "discr" else None
                    if k is not None:
                        x = addlin(lin(a, k[0]), lin(a, k[1]), k[2])
                        if len(x[0]) == 1:
                            (q,), m = x[0], abs((k[3] if k[2] > 0 else 0) - x[1])
                            if isinstance(q, int) and a.n[q][0] == "phi":
                                cand.setdefault(q, set()).update((m - 1, m, m + 1))
                    if t[0] == "op" and t[1] in ("Eq", "Ne", "Lt", "Le"):
                        x, y = lin(a, t[3]), lin(a, t[4])
                        if len(x[0]) + len(y[0]) == 1:
                            (q,), k = (x[0] or y[0]), abs(x[1] - y[1])
                            if isinstance(q, int) and a.n[q][0] == "phi":
                                cand.setdefault(q, set()).update((k - 1, k, k + 1))
        def inductive(q, lo, hi):
            self.inv = {r: {q: (lo, hi)} for r in self.reads}
            for r, ps in [(None, start)] + list(steps.items()):
                for p in ps:
                    if p.blocks[-1] not in self.reads or p.blocks[-1] in a.term:
                        continue
                    f = self.facts(p, self.canon(r))
                    z = p.resolve(q)
                    if f.bad or z == q and (r is None or r != p.blocks[-1]):
                        continue    # not possible, or not yet of any meaning there
                    l, h = f.bounds(f.simp(lin(a, z)))
                    if l is None or l < lo or hi is not None and (h is None or h > hi):
                        return False
            return True
        inv = {}
        for q, ks in cand.items():
            lo = 1 if inductive(q, 1, None) else 0
            hi = next((k for k in sorted(ks) if k >= lo and inductive(q, lo, k)), None)
            inv[q] = (lo, hi)
        self.inv = {r: inv for r in self.reads}

    def direct(self, n, c):
        """does c use n other than by way of an earlier round of the loop?"""
        a = self.a
        seen, todo = set(), [c]
        while todo:
            x = todo.pop()
            if x == n:
                return True
            if x in seen or a.n[x][0] == "phi":
                continue
            seen.add(x)
            todo += a.ops(x)
        return False

    def holds(self, p, x, r):
        """does x hold the byte that read r delivered, at the end of p?"""
        a = self.a
        y = p.resolve(x)
        return self.isbyte(y, r) or Facts.equal(self.facts(p, self.canon(r)), lin(a, y), ({CUR: 1}, 0)) is True

    def nothing(self, p, r, start, steps):
        """does the path decide, by a variable that is None until the first byte has been read, whether there has been one?"""
        a = self.a
        for cn, v, b in p.conds():
            t = a.n[cn]
            if t[0] == "flip" and v in (0, 1):
                v, t = 1 - v, a.n[t[1]]
            if t[0] == "discr" and v in (0, 1) and a.n[a.strip(t[1])][0] == "phi":
                y = t[1]
                x = [a.g.cval(q.resolve(a.g.discr(y))) for q in start if q.blocks[-1] == r]
                z = [a.g.cval(q.resolve(a.g.discr(y))) for k in steps for q in steps[k] if q.blocks[-1] == r]
                if x and z and set(x) == {0} and set(z) == {1}:
                    return v == 0
        return None

    def facts(self, p, canon, via=None, f=None):
        """f: facts to which those of a path at the end of the input are added (as seen from the end of path `via`)"""
        own = self.reads[p.blocks[0]]["node"] if f is not None and p.blocks[0] in self.reads else None
        if f is None:
            f = Facts(canon, self.a)
            if self.inv and p.blocks[0] in self.inv:
                for x, k in self.inv[p.blocks[0]].items():
                    f.iv[x] = k
        for c, v, b in p.conds():
            if own is not None and self.direct(own, c):
                continue
            if via is not None:
                c = via.resolve(c)
            x = self.a.g.cval(c)
            if x is not None:
                if isinstance(v, int) and x != v or isinstance(v, tuple) and x in v[1]:
                    f.bad = True
                continue
            f.learn(self.a, c, v)
        return f


# ---- what the written bytes say
def parse(a, items, mode, f):
    """runs [(symbol, count)] as affine forms; a string that says what is wrong with them otherwise"""
    L = lambda n: lin(a, n)
    if mode == "human":
        out, i = [], 0
        lit = lambda j, ch: j < len(items) and items[j][0] == "b" and a.g.cval(items[j][1]) == ord(ch)
        while i < len(items):
            if not (lit(i, "(") and i + 4 < len(items) and items[i + 1][0] == "s" and lit(i + 2, ",") and items[i + 3][0] == "d" and lit(i + 4, ")")):
                return "something other than (character,count) is written"
            out.append((L(items[i + 1][1]), L(items[i + 3][1])))
            i += 5
        return out

    def negative(x):
        lo = f.bounds(f.simp(L(x)))[0]
        return lo is None or lo < 0
    if any(k != "b" for k, _ in items):
        return "formatted text is written"
    out, i = [], 0
    if mode == "pairs":
        if len(items) % 2:
            return "a byte is written without its partner of the pair (symbol, length)"
        for j in range(1, len(items), 2):
            if negative(items[j][1]):
                return "the length written is computed by a subtraction from what may be 0"
        return [(L(items[j][1]), addlin(L(items[j + 1][1]), ({}, 1))) for j in range(0, len(items), 2)]
    while i < len(items):
        s = L(items[i][1])
        z = f.equal(s, ({}, 48))
        if z is None:
            return "a byte is written that may be taken for the start of a run"
        if z:
            if i + 1 >= len(items):
                return "the character 0 is written without the length of its run"
            if negative(items[i + 1][1]):
                return "the length written is computed by a subtraction from what may be 0"
            out.append((s, addlin(L(items[i + 1][1]), ({}, 1))))
            i += 2
        else:
            out.append((s, ({}, 1)))
            i += 1
    return out


def norm(rs, f):
    out = []
    for s, k in rs:
        s, k = f.simp(s), f.simp(k)
        if f.zero(k) is True:
            continue
        if out and f.equal(out[-1][0], s) is True:
            out[-1] = (s, f.simp(addlin(out[-1][1], k)))
        else:
            out.append((s, k))
    return [(s, k) for s, k in out if f.zero(k) is not True]


def same(x, y, f):
    x, y = norm(x, f), norm(y, f)
    return len(x) == len(y) and all(f.equal(p[0], q[0]) is True and f.equal(p[1], q[1]) is True for p, q in zip(x, y))


def spell(a, rs, f):
    def l(x):
        x = f.simp(x)
        return " + ".join(["%s%s" % ("" if v == 1 else "%d*" % v, "the byte read" if k == CUR else a.g.show(k, 3)) for k, v in x[0].items()] + ([str(x[1])] if x[1] or not x[0] else []))
    return "[" + ", ".join("%s x (%s)" % (l(s), l(k)) for s, k in norm(rs, f)) + "]"


def rle(c, tool, mode, seeds, prof):
    a = c.A(tool, seeds=seeds, profile=prof)
    S = Stream(c, a)
    if not S.ok:
        return 0
    ends, steps = {}, {}
    for r, e in S.reads.items():
        ends[r] = S.paths(r, eof_value(e))
        steps[r] = S.paths(r, data_value(e))
        if ends[r] is None or steps[r] is None:
            return 0
    n = 0
    key = "%s|%s" % (tool, mode)

    def bad(r, k, what):
        c.violate("%s|%s|%s" % (key, a.fn(r), k), a.where(r), "%s (%s): %s" % (tool, mode, what))
    em = {}
    for r in S.reads:
        if not ends[r]:
            bad(r, "noend", "the end of the input at this read is no successful ending")
        em[r] = []
        for p in ends[r]:
            if p.blocks[-1] in S.reads and p.blocks[-1] not in a.term:
                continue
            w = S.writes(p)
            if w is None:
                return 0
            em[r].append((p, w))
    start = S.entry()
    todo = []
    if start is None:
        return 0
    S.invariants(steps, ends, start)
    for p in start:
        todo.append((None, p))
    for r in S.reads:
        for p in steps[r]:
            todo.append((r, p))
    for r, p in todo:
        w = S.writes(p)
        if w is None:
            return 0
        q = p.blocks[-1]
        if q not in S.reads or q in a.term:
            if r is not None:
                bad(r, "stops", "it can end before the end of the input has been read")
            elif w:
                pass
            continue
        canon = S.canon(r)
        f0 = S.facts(p, canon)
        if f0.bad:
            continue
        for g, gw in em[q]:
            f1 = S.facts(g, canon, via=p, f=f0.copy())
            if f1.bad:
                continue
            gw2 = [(k, p.resolve(x)) for k, x in gw]
            bases = [(None, [])] if r is None else em[r]
            for h, hw in bases:
                f = f1 if h is None else S.facts(h, canon, f=f1.copy())
                if f.bad:
                    continue
                n += 1
                c.ok(1, "induction steps")
                left, right = parse(a, w, mode, f), parse(a, hw, mode, f)
                tail = parse(a, gw2, mode, f)
                for x in (left, right, tail):
                    if isinstance(x, str):
                        bad(q if r is None else r, "parse", x)
                        break
                else:
                    want = right + ([] if r is None else [(({CUR: 1}, 0), ({}, 1))])
                    if not same(left + tail, want, f):
                        bad(q if r is None else r, "step", "the runs written are not those of the input: having read %s, %s is written or still to be written, not %s" % (
                            "nothing" if r is None else "one more byte", spell(a, left + tail, f), spell(a, want, f)))
    return n


def runs(c, tool, prof):
    """the number printed at the end is the number of runs"""
    a = c.A(tool, profile=prof)
    S = Stream(c, a)
    if not S.ok:
        return 0
    val, steps = {}, {}
    for r, e in S.reads.items():
        ps = S.paths(r, eof_value(e))
        steps[r] = S.paths(r, data_value(e))
        if ps is None or steps[r] is None:
            return 0
        val[r] = []
        for p in ps:
            w = S.writes(p)
            if w is None or p.blocks[-1] in S.reads and p.blocks[-1] not in a.term:
                return 0
            num = [x for x in w if x[0] == "d"]
            if len(num) != 1:
                ds = [x for k, x in w if k == "b"]
                t = bytes(a.g.cval(x) or 0 for x in ds)
                m = re.fullmatch(rb"\s*(\d+)\s*", t)
                if num or not m:
                    return 0
                val[r].append((p, ({}, int(m.group(1)))))
            else:
                val[r].append((p, lin(a, num[0][1])))
    n = 0

    def bad(r, k, what):
        c.violate("%s|%s|%s" % (tool, a.fn(r), k), a.where(r), "%s: %s" % (tool, what))

    def sub(p, x):
        r = ({}, x[1])
        for k, v in x[0].items():
            y = lin(a, p.resolve(k))
            r = addlin(r, ({q: w * v for q, w in y[0].items()}, y[1] * v))
        return r
    start = S.entry()
    if start is None:
        return 0
    first = set()
    for p in start:
        q = p.blocks[-1]
        if q not in S.reads or q in a.term:
            continue
        first.add(q)
        for g, v in val[q]:
            f = S.facts(g, S.canon(None), via=p, f=S.facts(p, S.canon(None)))
            if f.bad:
                continue
            n += 1
            c.ok(1, "induction steps")
            if f.zero(sub(p, v)) is not True:
                bad(q, "empty", "the number of runs of the empty text is not 0")
    # what the byte read is compared with: the variable that is to hold the byte before
    last, mixed, marker = {}, {}, {}
    for r in S.reads:
        last[r] = set()
        for p in steps[r]:
            for x in [cn for cn, v, b in p.conds()] + [k for k in lin_values(a, S, p, val)]:
                t = a.n[x]
                if t[0] == "not":
                    t = a.n[t[1]]
                if t[0] == "op" and t[1] in ("Eq", "Ne", "Lt", "Le"):
                    if any(a.n[a.strip(y)][0] == "agg" for y in t[3:5]) and S.reads[r]["node"] in a.deps(x):
                        return 0
                    for x, y in ((t[3], t[4]), (t[4], t[3])):
                        if S.isbyte(x, r) and not S.isbyte(y, r) and a.g.cval(y) is None and a.n[a.strip(y)][0] in ("phi", "proj", "eff", "call"):
                            last[r].add(a.strip(y))
                elif t[0] not in ("discr", "flip") and not S.isbyte(x, r) and S.reads[r]["node"] in a.deps(x):
                    return 0
        mixed[r] = r in first and any(p.blocks[-1] == r for q in S.reads for p in steps[q])
    for r in S.reads:
        canon = S.canon(r)
        for p in steps[r]:
            q = p.blocks[-1]
            if q not in S.reads or q in a.term:
                bad(r, "stops", "it can end before the end of the input has been read")
                continue
            f0 = S.facts(p, canon)
            if f0.bad:
                continue
            cur = ({CUR: 1}, 0)
            # of the things compared with, those that hold the byte before on every way into the read
            if r in first and not mixed[r]:
                ok = None
            else:
                ok = [x for x in last[r] if all(S.holds(p2, x, r2) for r2 in S.reads for p2 in steps[r2] if p2.blocks[-1] == r)]
                if not ok:
                    bad(r, "prev", "the byte read is not compared with the one before it")
                    continue
            for g, v in val[q]:
                f1 = S.facts(g, canon, via=p, f=f0.copy())
                for h, u in val[r]:
                    f2 = S.facts(h, canon, f=f1.copy())
                    if f2.bad:
                        continue
                    n += 1
                    c.ok(1, "induction steps")
                    diff = addlin(sub(p, v), u, -1)
                    for f in split(a, f2, f2.simp(diff)):
                        cases = [(f, False)]
                        if ok is None:
                            cases = [(f, True)]
                        elif mixed[r]:
                            m = S.nothing(p, r, start, steps)
                            if m is None:
                                e, o = f.copy(), f.copy()
                                e.rel(u, "==")
                                o.rel(u, "!=")
                                cases = [(e, True), (o, False)]
                            else:
                                cases = [(f, m)]
                        for f, none in cases:
                            if f.bad:
                                continue
                            if none:
                                add = 1
                            else:
                                eq = [f.equal(({x: 1}, 0), cur) for x in ok]
                                d = f.simp(diff)
                                if True not in eq and False not in eq:
                                    bad(r, "undecided", "the counter grows by %s whether or not the byte read equals the one before it" % spellnum(a, d))
                                    continue
                                add = 0 if True in eq else 1
                            if f.equal(diff, ({}, add)) is not True:
                                bad(r, "count", "the counter grows by something other than %d when the byte read %s" % (
                                    add, "is the first one" if none else "differs from the one before" if add else "equals the one before"))
    return n


def spellnum(a, d):
    return str(d[1]) if not d[0] else "something"


def boolop(a, n):
    t = a.n[n]
    while t[0] == "not":
        t = a.n[t[1]]
    return t[0] == "op" and t[1] in ("Eq", "Ne", "Lt", "Le")


def lin_values(a, S, p, val):
    """comparisons that are counted as numbers (`n += (x != y) as usize`)"""
    out = []
    q = p.blocks[-1]
    for g, v in val.get(q, ()):
        for k in v[0]:
            out += [x for x in lin(a, p.resolve(k))[0] if boolop(a, x)]
    return out


def split(a, f, d):
    """the facts, with every comparison that occurs in d as a number decided"""
    for k in d[0]:
        if isinstance(k, int) and boolop(a, k):
            out = []
            for v in (0, 1):
                g = f.copy()
                g.learn(a, k, v)
                g.sub[k] = ({}, v)
                if not g.bad:
                    out += split(a, g, g.simp(d))
            return out
    return [f]


@prop("C20", "inductive proof over the reads of rle (three formats) and count_runs, from the MIR of all feasible paths between two reads: the runs "
      "written on the path, followed by what would be written if the input ended after it, equal what would be written if it ended before it, "
      "followed by the byte read (affine arithmetic on the counters, equalities between symbols from the branches taken)")
def c20(c):
    n = 0
    B = lambda v: ("const", "bool", v)
    for prof in c.profiles():
        for mode, sd in (("pairs", {"human": B(0), "onlyzero": B(0)}), ("zero", {"human": B(0), "onlyzero": B(1)}), ("human", {"human": B(1), "onlyzero": B(0)})):
            k = rle(c, "rle", mode, sd, prof)
            c.sample("rle %s: %d induction steps" % (mode, k))
            n += k
        k = runs(c, "count_runs", prof)
        c.sample("count_runs: %d induction steps" % k)
        n += k
    c.counts["induction steps"] = n
