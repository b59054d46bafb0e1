"""C32: what the enumerators list, round by round.

next() of an iterator is summarised by the ways from its entry to its end (what loops in it fill stays a loop): the word returned in terms
of the fields before, the fields after, and the conditions. The summary is compared with the definition of the list."""
import re

from p_array import *
from p_array import Loops, Rounds, flat_atoms, freeze, neg, odd, root, shift, single, thaw  # noqa
from paths import walk
from p_iter import is_none


class Whole(Rounds):
    """a way through the whole function; what loops change is left as it is"""

    def resolve(self, n, i=None):
        return Path.resolve(self, n, len(self.blocks) - 1 if i is None else i)


def ways(c, a, s):
    """[(blocks outside loops, path)] of the ways from entry to return"""
    ex = c.explorer(a, end_extras(a))
    ps = walk(a, ex, a.entry, {a.ret}, {}, 3000)
    if ps is None:
        return None
    inl = set().union(*(s.body(h) for h in a.g.heads)) if a.g.heads else set()
    out, seen = [], set()
    for p in ps:
        if p.blocks[-1] != a.ret:
            continue
        w = Whole(a, p.blocks, p.env, set(a.g.heads))
        w.free = [b for b in p.blocks if b not in inl]
        if tuple(w.free) not in seen:
            seen.add(tuple(w.free))
            out.append(w)
    return out


def outer(a, s, p):
    """the conditions of a way outside its loops"""
    return [(cnd, v) for cnd, v, b in p.conds() if b in p.free]


def facts(a, s, p):
    f = s.facts(p)
    f = type(f)(s)
    for cnd, v in outer(a, s, p):
        f.learn(a, cnd, v)
    return f


def merged(f, xs):
    """slices as few as possible, after what is known"""
    out = []
    for arr, lo, k in xs:
        lo, k = f.simp(lo), f.simp(k)
        if k == ({}, 0):
            continue
        if out and out[-1][0] == arr and f.simp(addlin(out[-1][1], out[-1][2])) == lo:
            out[-1] = (arr, out[-1][1], f.simp(addlin(out[-1][2], k)))
        else:
            out.append((arr, lo, k))
    return out


ZERO = ({}, 0)


def whole(s, x):
    return (x, ZERO, s.len_of(x))


def around(s, arr, lo):
    """the rotation of an array that starts at lo"""
    n = s.len_of(arr)
    return [(arr, lo, addlin(n, lo, -1)), (arr, ZERO, lo)]


def element(s, n):
    v = s.val(n)
    return v if v and v[0] == "el" else None


def pieces(s, p, n, d=0):
    """the items of a list, slice or iterator as slices of arrays; None: not understood"""
    a = s.a
    if d > 25:
        return None
    n = a.strip(p.resolve(n))
    t = a.n[n]
    if t[0] in ("ref", "load"):
        if t[0] == "ref" or a.n[t[1]][0] in ("eff", "phi", "call"):
            x = a.g.load(n) if hasattr(a.g, "load") and t[0] == "ref" else t[1]
            return pieces(s, p, t[1] if not isinstance(x, int) else x, d + 1) if isinstance(t[1], int) else None
    if t[0] == "eff" and t[2] == 0 and a.n[t[1]][0] == "call":
        e = a.n[t[1]]
        last = e[2].split("::")[-1]
        if last.startswith(("reserve", "shrink", "try_reserve")):
            return pieces(s, p, t[3], d + 1)
        if last == "next":
            return None
        b = pieces(s, p, t[3], d + 1)
        if b is None:
            return None
        if last == "push" and len(e[3]) == 2:
            x = element(s, p.resolve(e[3][1]))
            return x and b + [(x[1], x[2], ({}, 1))]
        if last in ("extend_from_slice", "extend") and len(e[3]) == 2:
            x = pieces(s, p, e[3][1], d + 1)
            return None if x is None else b + x
        if last in ("rotate_left", "rotate_right") and len(e[3]) == 2 and len(b) == 1 and b[0][1] == ZERO and b[0][2] == s.len_of(b[0][0]):
            k = s.lin(p.resolve(e[3][1]))
            return around(s, b[0][0], k if last == "rotate_left" else addlin(b[0][2], k, -1))
        return None
    if t[0] == "phi" and t[1] in a.g.heads:
        h = t[1]
        out = {a.strip(o) for q, o in a.g.phis.get((h, t[2]), {}).items() if not a.dominates(h, q)}
        if len(out) != 1:
            return None
        b = pieces(s, p, out.pop(), d + 1)
        r = s.round_writes(h, t[2], n)
        if b is None or r is None:
            return None
        if all(not q for _, q in r):
            return b
        k = s.rounds(h)
        got = set()
        for q, w in r:
            if len(w) != 1 or w[0][0] != "push":
                return None
            x = element(s, q.resolve(w[0][1]))
            if not x:
                return None
            got.add((x[1], freeze(x[2])))
        if len(got) == 2 and k is not None and len(r) == 2:
            return halves(s, b, h, k, r)
        if len(got) != 1 or k is None:
            return None
        (arr, x), = got
        return counted(s, b, arr, thaw(x), h, k)
    if t[0] == "slice":
        arr = root(a, t[1])
        r = a.n[a.strip(p.resolve(t[2]))]
        if r[0] != "agg" or len(r[1]) < 4:
            return None
        kind = r[1][3]
        if kind == "RangeFull":
            return [whole(s, arr)]
        if kind not in ("Range", "RangeTo", "RangeFrom"):
            return None
        lo = ZERO if kind == "RangeTo" else s.lin(p.resolve(r[2][0]))
        hi = s.len_of(arr) if kind == "RangeFrom" else s.lin(p.resolve(r[2][-1]))
        return [(arr, lo, addlin(hi, lo, -1))]
    if t[0] == "call":
        last = t[2].split("::")[-1]
        if last in ("new", "with_capacity", "default") and len(t[3]) < 2:
            return []
        if last in ("to_vec", "to_owned", "clone", "into", "into_vec", "from", "iter", "into_iter", "copied", "cloned", "collect", "as_slice", "deref", "by_ref", "from_iter", "as_ref") and t[3]:
            return pieces(s, p, t[3][0], d + 1)
        if last == "concat" and len(t[3]) == 1:
            x = a.n[a.strip(p.resolve(t[3][0]))]
            while x[0] in ("ref", "cast") and isinstance(x[1 if x[0] == "ref" else 3], int):
                x = a.n[x[1 if x[0] == "ref" else 3]]
            if x[0] != "agg":
                return None
            out = []
            for y in x[2]:
                q = pieces(s, p, y, d + 1)
                if q is None:
                    return None
                out += q
            return out
        if last == "chain" and len(t[3]) == 2:
            x, y = (pieces(s, p, z, d + 1) for z in t[3])
            return None if x is None or y is None else x + y
        if last == "take" and len(t[3]) == 2:
            k = s.lin(p.resolve(t[3][1]))
            y = cyc(s, p, t[3][0])
            if y:
                return around(s, *y) if k == s.len_of(y[0]) else None
            x = pieces(s, p, t[3][0], d + 1)
            return [(x[0][0], x[0][1], k)] if x and len(x) == 1 else None
        if last == "skip" and len(t[3]) == 2:
            k = s.lin(p.resolve(t[3][1]))
            x = pieces(s, p, t[3][0], d + 1)
            return [(x[0][0], addlin(x[0][1], k), addlin(x[0][2], k, -1))] if x and len(x) == 1 else None
        return None
    if t[0] in ("load", "proj", "param"):
        ty = a.ty(n) if hasattr(a, "ty") else None
        return [whole(s, root(a, n))]
    return None


def cyc(s, p, n):
    """(array, start) of text.iter().cycle().skip(start)"""
    a = s.a
    lo = ZERO
    for _ in range(6):
        t = a.n[a.strip(p.resolve(n))]
        if t[0] != "call" or not t[3]:
            return None
        last = t[2].split("::")[-1]
        if last == "skip" and len(t[3]) == 2:
            lo = addlin(lo, s.lin(p.resolve(t[3][1])))
        elif last == "cycle":
            x = pieces(s, p, t[3][0])
            return (x[0][0], lo) if x and len(x) == 1 and x[0][1] == ZERO and x[0][2] == s.len_of(x[0][0]) else None
        elif last not in ("copied", "cloned"):
            return None
        n = t[3][0]
    return None


def halves(s, b, h, k, ways_):
    """a loop whose first rounds append one element and whose other rounds another"""
    a = s.a
    one = ("round", h)
    got = {}
    for q, w in ways_:
        x = element(s, q.resolve(w[0][1]))
        for cnd, v, bb in q.conds():
            t = a.n[cnd]
            while t[0] == "not" and v in (0, 1):
                t, v = a.n[t[1]], 1 - v
            if t[0] != "op" or t[1] not in ("Lt", "Le") or v not in (0, 1):
                continue
            D = addlin(s.lin(t[3]), s.lin(t[4]), -1)
            if t[1] == "Le":
                D = addlin(D, ({}, -1))
            # D < 0
            if D[0].get(one) == -1:
                D, v = addlin(({}, -1), D, -1), 1 - v
            if D[0].get(one) == 1:
                W = addlin(({one: 1}, 0), D, -1)
                got.setdefault(freeze(W), {})[v] = x
    got = {W: g for W, g in got.items() if len(g) == 2 and W != freeze(k)}
    if len(got) != 1:
        return None
    (W, g), = got.items()
    W = thaw(W)
    b = counted(s, b, g[1][1], g[1][2], h, W)
    if b is None:
        return None
    x = g[0][2]
    rest = addlin(k, W, -1)
    if x[0].get(one) == 1:
        return b + [(g[0][1], shift(x, one, W), rest)]
    if x[0].get(one) == -1:
        return b + [(("backwards", g[0][1]), shift(x, one, addlin(k, ({}, -1))), rest)]
    return b + [(g[0][1], x, rest)] if len(x[0]) == 1 else None


def counted(s, b, arr, x, h, k):
    """a loop of k rounds that appends arr[x]"""
    a = s.a
    r = ("round", h)
    if x[0].get(r) == -1:
        return b + [(("backwards", arr), addlin(shift(x, r, ZERO), addlin(k, ({}, -1)), -1), k)]
    if x[0].get(r) == 1:
        return b + [(arr, shift(x, r, ZERO), k)]
    if len(x[0]) == 1 and not x[1]:
        (q, v), = x[0].items()
        t = a.n[q] if isinstance(q, int) else ("",)
        if v == 1 and t[0] == "op" and t[1] == "Rem" and s.lin(t[4]) == s.len_of(arr) == k:
            y = s.lin(t[3])
            if y[0].get(r) == 1:
                return b + around(s, arr, shift(y, r, ZERO))
    return None


def fields(a, sv, base):
    """{step: value after} of the fields that are numbers"""
    out = {}
    for i in range(len(a.n)):
        t = a.n[i]
        if t[0] == "proj" and t[1] == base and t[2][0] == "f":
            out[t[2]] = a.g.proj(sv, t[2])
    return out


def machine(c, f, prof):
    """[(way, value returned or None, {field: (atom before, value after)})] of an iterator's next()"""
    a = c.A(f["id"], profile=prof)
    s = Loops(c, a)
    st = a.g.instate.get(a.ret)
    par = a.g.init[a.flat.params[0]]
    if st is None or a.n[par][0] != "ref":
        return a, s, None
    cell = a.n[par][1]
    base = a.g.init[cell]
    ps = ways(c, a, s)
    if ps is None:
        return a, s, None
    out = []
    for p in ps:
        rv = p.resolve(st[a.flat.ret_gid])
        sv = p.resolve(st.get(cell, base))
        k = is_none(a, rv)
        if k is None:
            return a, s, None
        w = None
        if not k:
            t = a.n[rv]
            if t[0] != "agg" or len(t[2]) != 1:
                return a, s, None
            w = t[2][0]
        fs = {}
        for stp, v in fields(a, sv, base).items():
            fs[stp] = (a.g.proj(base, stp), v)
        out.append((p, w, fs))
    return a, s, out


def starts(c, prof, f):
    """what the constructor of an iterator makes"""
    name = re.search(r"core::(\w+)", f["id"])
    out = []
    for g in c.world(prof).fns.values():
        if name and g["id"].split("::")[-1] == "new" and re.search(r"\b%s\b" % name.group(1), g["id"]) and " as " not in g["id"]:
            a = c.A(g["id"], profile=prof)
            v = a.g.instate.get(a.ret, {}).get(a.flat.ret_gid)
            if v is not None and a.n[v][0] == "agg":
                out.append((a, Loops(c, a), v))
    return out


def within(a, s, x, known_):
    """is an affine form made of the atoms named alone, of extrema and of parts masked out of them?"""
    return all(k in known_ or isinstance(k, tuple) and k[0] == "el" and within(a, s, thaw(k[2]), known_) or isinstance(k, int) and made(a, s, k, known_) for k in x[0])


def made(a, s, k, known_):
    if extreme(a, k):
        return all(within(a, s, s.lin(y), known_) for y in extreme(a, k)[1])
    t = a.n[k]
    if t[0] == "op" and t[1] in ("BitAnd", "BitOr", "BitXor", "Shr", "Shl", "Rem", "Div", "Mul"):
        return all(within(a, s, s.lin(y), known_) for y in t[3:5])
    return False


@prop("C32", "the ways through next() are summarised from the value graph of its MIR (the word returned as slices of the text or as letters per round, "
      "the fields before and after, the conditions) and compared with the definition: the i-th call returns the i-th word, the position "
      "goes up by one, None exactly behind the last word")
def c32(c):
    n = 0
    for prof in c.profiles():
        for f in c.world(prof).fns.values():
            if not (f.get("impl_trait", "").endswith("iter::Iterator") and f["id"].endswith("::next")):
                continue
            if "ConjugateIterator" in f["id"]:
                n += conjugates(c, f, prof)
            elif "BinaryStringGenerator" in f["id"]:
                n += binaries(c, f, prof)
        if "enumerate" in c.tools(prof):
            n += odometer(c, prof)
    c.floor("enumerators", n, 0)


def unclear(c, f):
    c.sample("%s: not decided, the way it is written was not understood" % f["id"])
    return 0


def conjugates(c, f, prof):
    a, s, ws = machine(c, f, prof)
    where = "%s (%s:%s)" % (f["id"], f["f"], f["ln"])
    v = lambda k, what: c.violate("conjugates|" + k, where, "ConjugateIterator: " + what)
    if not ws:
        return unclear(c, f)
    # which field is the position, and which array is the text
    pos = arr = None
    words = []
    for p, w, fs in ws:
        if w is None:
            continue
        x = pieces(s, p, w)
        words.append((p, x, fs))
        for q in x or ():
            z = q[0][1] if isinstance(q[0], tuple) else q[0]
            arr = z if arr in (None, z) else -1
    if arr in (None, -1) or any(x is None for p, x, fs in words):
        return unclear(c, f)
    N = s.len_of(arr)
    atoms = {}
    for p, x, fs in words:
        for stp, (b, e) in fs.items():
            if any(b in flat_atoms(q[1]) | flat_atoms(q[2]) or s.lin(e) == addlin(({b: 1}, 0), ({}, 1)) for q in x):
                atoms[b] = stp
    if len(atoms) != 1:
        return unclear(c, f)
    (P, stp), = atoms.items()
    pos = ({P: 1}, 0)
    known_ = {P} | set(N[0])
    n = 0
    for p, x, fs in words:
        n += 1
        c.ok(1, "ways that return a word")
        fa = facts(a, s, p)
        got, want = merged(fa, x), merged(fa, around(s, arr, pos))
        kr = known_ | {("round", h) for h in a.g.heads}
        if got != want and all(within(a, s, q[1], kr) and within(a, s, q[2], kr) for q in got):
            v("word", "the word returned is not the text from the position on followed by the text before it")
        nxt = s.lin(p.resolve(fs[stp][1]))
        if nxt != addlin(pos, ({}, 1)) and within(a, s, nxt, known_):
            v("step", "the position does not go up by one with every word")
        g = fa.copy()
        g.rel(addlin(pos, N, -1), "==")
        if not g.bad and not fa.implies(addlin(addlin(pos, ({}, 1)), N, -1)) and clear(a, s, p, known_):
            v("more", "a word is returned although all conjugates have been listed")
    for p, w, fs in ws:
        if w is None:
            c.ok(1, "ways that return None")
            fa = facts(a, s, p)
            g = fa.copy()
            g.rel(addlin(pos, N, -1), "<")
            if not g.bad and not fa.implies(addlin(N, pos, -1)) and clear(a, s, p, known_):
                v("fewer", "the list ends before the last conjugate")
    for a2, s2, w in starts(c, prof, f):
        x = a2.g.cval(a2.strip(a2.g.proj(w, stp)))
        if x is not None and x != 0:
            v("start", "the list does not start with the text itself")
        t = a.n[arr]
        while t[0] == "load":
            t = a.n[t[1]]
        if t[0] == "proj" and t[2][0] == "f":
            x = a2.n[a2.strip(a2.g.proj(w, t[2]))]
            if x[0] in ("slice", "subref") and a2.n[x[2]][0] == "agg" and a2.n[x[2]][1][3] != "RangeFull":
                v("text", "a part of the text is left out")
    return n and 1


def clear(a, s, p, known_):
    """do the conditions of a way speak of known values alone?"""
    for cnd, v in outer(a, s, p):
        t = a.n[cnd]
        while t[0] == "not":
            t = a.n[t[1]]
        if t[0] == "op" and t[1] in ("Eq", "Ne", "Lt", "Le"):
            if not (flat_atoms(s.lin(t[3])) | flat_atoms(s.lin(t[4])) <= known_):
                return False
        elif t[0] not in ("ovf", "const"):
            return False
    return True


def bit(a, s, p, n):
    """("bit", number, place) of the value (number >> place) & 1, or of number & (1 << place)"""
    t = a.n[a.uncast(p.resolve(n))]
    if t[0] != "op":
        return None
    if t[1] == "BitAnd":
        for x, y in (t[3:5], t[4:2:-1]):
            u = a.n[a.uncast(y)]
            I = ZERO
            while u[0] == "op" and u[1] == "Shl":
                I = addlin(I, s.lin(a.uncast(u[4])))
                if u[2] not in ("u64", "i64", "usize", "u128"):
                    return "cut", s.lin(a.uncast(x)), I
                if a.g.cval(a.strip(u[3])) == 1:
                    return "mask", s.lin(a.uncast(x)), I
                u = a.n[a.uncast(u[3])]
            if u[0] == "call" and u[2].split("::")[-1] in ("wrapping_shl", "unbounded_shl") and len(u[3]) == 2 and a.g.cval(a.strip(u[3][0])) == 1:
                e = a.events.get(u[1])
                wide = e and e["atys"][0] in ("u64", "i64", "usize", "u128")
                return "mask" if wide else "cut", s.lin(a.uncast(x)), addlin(I, s.lin(a.uncast(u[3][1])))
            if a.g.cval(a.strip(y)) == 1:
                return ("one",) + shifted_(a, s, x)
    if t[1] == "Rem" and a.g.cval(a.strip(t[4])) == 2:
        return ("one",) + shifted_(a, s, t[3])
    return None


def shifted_(a, s, n):
    u = a.n[a.uncast(n)]
    if u[0] == "op" and u[1] == "Shr":
        return s.lin(a.uncast(u[3])), s.lin(a.uncast(u[4]))
    return s.lin(a.uncast(n)), ZERO


def told(a, s, p):
    """the bits that the branches of a round have found: [(number, place, value)]"""
    out = []
    for cnd, v, b in p.conds():
        t = a.n[cnd]
        if v not in (0, 1):
            continue
        while t[0] == "not":
            t, v = a.n[t[1]], 1 - v
        if t[0] == "op" and t[1] in ("Eq", "Ne"):
            for x, y in (t[3:5], t[4:2:-1]):
                k = a.g.cval(a.strip(y))
                r = bit(a, s, p, x)
                if r and (k == 0 or k == 1 and r[0] == "one"):
                    out.append((r[1], r[2], (k if r[0] == "one" else 0) if v == (t[1] == "Eq") else 1 - k))
        elif t[0] == "op" and t[1] == "Lt" and a.g.cval(a.strip(t[3])) == 0:
            r = bit(a, s, p, t[4])
            if r:
                out.append((r[1], r[2], v))
        else:
            r = bit(a, s, p, cnd)
            if r and r[0] == "one":
                out.append((r[1], r[2], v))
    return out


def letter(a, s, p, n):
    """[(number, place, what a 0 is written as, what a 1 is)] of a letter that depends on one bit"""
    n = a.uncast(p.resolve(n))
    k = a.g.cval(n)
    if k is not None:
        return [(R, I, k if v == 0 else None, k if v else None) for R, I, v in told(a, s, p)]
    t = a.n[n]
    if t[0] == "op" and t[1] == "Add":
        for x, y in (t[3:5], t[4:2:-1]):
            k = a.g.cval(a.strip(y))
            r = bit(a, s, p, x)
            if k is not None and r and r[0] == "one":
                return [(r[1], r[2], k, k + 1)]
    if t[0] == "op" and t[1] == "Sub":
        k, r = a.g.cval(a.strip(t[3])), bit(a, s, p, t[4])
        if k is not None and r and r[0] == "one":
            return [(r[1], r[2], k, k - 1)]
    if t[0] == "op" and t[1] == "BitOr":
        for x, y in (t[3:5], t[4:2:-1]):
            k = a.g.cval(a.strip(y))
            r = bit(a, s, p, x)
            if isinstance(k, int) and not k & 1 and r and r[0] == "one":
                return [(r[1], r[2], k, k + 1)]
    return []


def binaries(c, f, prof):
    a, s, ws = machine(c, f, prof)
    where = "%s (%s:%s)" % (f["id"], f["f"], f["ln"])
    v = lambda k, what: c.violate("binary|" + k, where, "BinaryStringGenerator: " + what)
    if not ws:
        return unclear(c, f)
    n = 0
    for p, w, fs in ws:
        if w is None:
            continue
        x = s.writes(w, None)
        loops = [y for y in x[1] if y[0] == "loop"] if x else []
        if not x or len(x[1]) != 1 or len(loops) != 1 or a.n[x[0]][0] != "call" or a.n[x[0]][2].split("::")[-1] not in ("new", "with_capacity"):
            continue
        h, k = loops[0][1], s.rounds(loops[0][1])
        r = ("round", h)
        own = {b for b, e in fs.values()}
        for q, y in loops[0][2]:
            if len(y) != 1 or y[0][0] != "push":
                if not y:
                    v("letters", "a round adds no letter")
                continue
            ls = letter(a, s, q, y[0][1])
            if len(ls) != 1:
                continue
            R, I, zero, one = ls[0]
            rank = single_atom(R)
            if rank not in own:
                if k is not None and R[0] and within(a, s, R, own):
                    v("rank", "the letters are not those of the rank")
                continue
            if len(own) != 2 or k is None:
                continue
            L, = own - {rank}
            n += 1
            c.ok(1, "letters written")
            if {zero, one} - {None, 48, 49} or zero == 49 or one == 48:
                v("letters", "a 0 of the rank is not written as '0', or a 1 not as '1'")
            if k != ({L: 1}, 0):
                if within(a, s, k, {L}):
                    v("count", "a word does not have as many letters as asked for")
                continue
            if I != addlin(({L: 1}, -1), ({r: 1}, 0), -1) and within(a, s, I, {L, r}):
                v("order", "the letters are not the bits of the rank from the highest to the lowest")
            if any(z == "cut" for z in kinds(a, s, q)) or shortened(a, s, q, y[0][1], rank):
                v("places", "the high places of the rank are not written")
            st = [stp for stp, (b, e) in fs.items() if b == rank][0]
            nxt = s.lin(p.resolve(fs[st][1]))
            if nxt != ({rank: 1}, 1) and within(a, s, nxt, {rank, L}):
                v("step", "the rank does not go up by one with every word")
            for a2, s2, z in starts(c, prof, f):
                o = a2.g.cval(a2.strip(a2.g.proj(z, st)))
                if o is not None and o != 0:
                    v("start", "the list does not start with the word of zeros")
                o = a2.g.proj(z, [stp for stp, (b, e) in fs.items() if b == L][0])
                m = s2.lin(o)
                if single_atom(m) is None or extreme(a2, single_atom(m)):
                    v("length", "the words do not have the length asked for")
            ends(a, s, c, ws, rank, L, v)
    return bool(n) or unclear(c, f)


def shortened(a, s, p, n, rank):
    """is the rank made smaller before its bits are looked at?"""
    for z in [p.resolve(n)] + [cnd for cnd, v, b in p.conds()]:
        for x in a.deps(z):
            t = a.n[x]
            if t[0] == "cast" and narrows(t) and single_atom(s.lin(t[3])) == rank:
                return True
    return False


def kinds(a, s, p):
    out = []
    for cnd, v, b in p.conds():
        t = a.n[cnd]
        while t[0] == "not":
            t = a.n[t[1]]
        for x in t[3:5] if t[0] == "op" else (cnd,):
            z = bit(a, s, p, x) if isinstance(x, int) else None
            if z:
                out.append(z[0])
    return out


def single_atom(x):
    if x and len(x[0]) == 1 and not x[1]:
        (k, w), = x[0].items()
        if w == 1 and isinstance(k, int):
            return k
    return None


def ends(a, s, c, ws, rank, L, v):
    """None exactly when the rank has more bits than the words"""
    for p, w, fs in ws:
        r = [exhausted(a, s, cnd, x, rank, L) for cnd, x in outer(a, s, p)]
        fa = facts(a, s, p)
        fa.rel(({L: 1}, -63), "<=")
        if w is None:
            c.ok(1, "ways that return None")
        if True in r or None in r or fa.bad:
            continue
        if w is None:
            v("end", "the list ends before its last word")
        else:
            v("end", "the list goes on behind its last word")


def exhausted(a, s, cnd, x, rank, L):
    """True: a condition that compares the rank with the number of words, or that no rank is left; False: it compares it with another
    number; "": it is not about the rank; None: not understood"""
    if rank not in a.deps(cnd):
        return ""
    t = a.n[cnd]
    while t[0] == "not" and x in (0, 1):
        t, x = a.n[t[1]], 1 - x
    if t[0] != "op" or t[1] not in ("Eq", "Ne", "Lt", "Le"):
        return "" if t[0] == "ovf" else None
    for u, w in (t[3:5], t[4:2:-1]):
        y = a.n[a.uncast(u)]
        k = a.g.cval(a.strip(w))
        if k is not None and s.lin(u) == ({rank: 1}, 0) and t[1] in ("Eq", "Ne"):
            return k == (1 << 64) - 1 if x == (t[1] == "Eq") else ""
        if y[0] == "op" and y[1] == "Shr":
            R, I = s.lin(a.uncast(y[3])), s.lin(a.uncast(y[4]))
            if set(R[0]) == {rank} and L in I[0] and set(I[0]) <= {L}:
                if R != ({rank: 1}, 0) or I != ({L: 1}, 0):
                    return False
                if t[1] == "Lt" and (u == t[4] and k == 0 or u == t[3] and k == 1) or t[1] == "Le" and (u == t[4] and k == 1 or u == t[3] and k == 0) or t[1] in ("Eq", "Ne") and k in (0, 1):
                    return True
                return False if k is not None else None
    D = addlin(s.lin(t[3]), s.lin(t[4]), -1)
    if len(D[0]) == 2 and rank in D[0]:
        S, = set(D[0]) - {rank}
        y = a.n[S] if isinstance(S, int) else ("",)
        e, d = D[0][rank], D[1]
        if y[0] == "op" and y[1] == "Shl" and a.g.cval(a.strip(y[3])) == 1 and D[0][S] == -e and e in (1, -1):
            if s.lin(a.uncast(y[4])) != ({L: 1}, 0):
                return None
            if t[1] in ("Eq", "Ne"):
                return d == 0
            # rank - S + d < 0: rank below S - d;  S - rank + d < 0: rank above S + d
            return d == ((0 if t[1] == "Lt" else 1) if e == 1 else (-1 if t[1] == "Lt" else 0))
    return None


# ---- the tools that print words
def outputs(a, p):
    """[(block, parts of the text)] written to an output on a way: parts ("lit", bytes) | ("arg", node, kind); parts None: not understood"""
    out = []
    for i, b in enumerate(p.blocks):
        e = a.events.get(b)
        if not e or a.islog(e) or e.get("modeled"):
            continue
        R = lambda n: p.resolve(n, i)
        if e["last"] == "_print":
            out.append((b, a.fmt(R(e["snaps"][0]))))
        elif e["last"] in ("write_all", "write") and len(e["snaps"]) > 1:
            n = a.deref(R(e["snaps"][1]))
            k = a.text_const(n)
            out.append((b, [("lit", k)] if k is not None else [("arg", n, "bytes")]))
        elif e["last"] == "write_fmt" and len(e["snaps"]) > 1:
            out.append((b, a.fmt(R(e["snaps"][1]))))
    return out


def lined(text):
    """is it a word and the end of its line? True, False, None: not understood"""
    if any(x is None for b, x in text):
        return None
    ps = [q for b, x in text for q in x]
    if not any(q[0] == "arg" for q in ps):
        return False
    return ps[-1][0] == "arg" and None or ps[-1] == ("lit", b"\n") and sum(1 for q in ps if q[0] == "arg") == 1 and len(ps) == 2


def ended(a, s, n):
    """is a newline appended to the word itself?"""
    return any(a.n[x][0] == "call" and a.n[x][2].split("::")[-1] in ("push", "extend", "extend_from_slice", "push_str", "chain", "concat", "join") or
               a.n[x][0] == "eff" for x in a.deps(n))


ADAPT = {"skip", "take", "step_by", "filter", "skip_while", "take_while", "filter_map", "map_while", "peekable", "nth", "dedup"}


def limits(s, h, only):
    """how many rounds the exits named allow"""
    a = s.a
    out = []
    for b, x in only:
        if b not in a.g.cond:
            continue
        t = a.n[a.g.cond[b]]
        if t[0] == "discr":
            y = a.n[a.strip(t[1])]
            if y[0] == "call" and y[2].split("::")[-1] == "next" and y[3]:
                src = s.source(y[3][0])
                if src:
                    out.append(s.length(src))
            continue
        vals = [v for v, z in a.flat.blocks[b].t.get("ts", ()) if z.id == x]
        leave = bool(vals[0]) if vals else True
        while t[0] == "not":
            t, leave = a.n[t[1]], not leave
        if t[0] != "op" or t[1] not in ("Lt", "Le", "Eq", "Ne"):
            continue
        D = addlin(s.lin(t[4]), s.lin(t[3]), -1)
        r = ("round", h)
        if t[1] in ("Lt", "Le"):
            if leave:
                D = neg(D)
                D = addlin(D, ({}, 1)) if t[1] == "Lt" else D
            elif t[1] == "Le":
                D = addlin(D, ({}, 1))
        elif leave != (t[1] == "Eq"):
            continue
        elif D[0].get(r) == 1:
            D = neg(D)
        if D[0].get(r) == -1:
            out.append(({k: v for k, v in D[0].items() if k != r}, D[1]))
    return out


def next_digit(a, s, p, el, alpha, Z=0):
    """does a way know that the digit can go up? True, False, "off": it compares with another number, None"""
    res = None
    for cnd, v, b in p.conds():
        t = a.n[cnd]
        while t[0] == "not" and v in (0, 1):
            t, v = a.n[t[1]], 1 - v
        if t[0] != "op" or t[1] not in ("Lt", "Le", "Eq", "Ne"):
            continue
        D = addlin(s.lin(t[3]), s.lin(t[4]), -1)
        if el not in D[0] or len(D[0]) != 2:
            continue
        X, = set(D[0]) - {el}
        e, d = D[0][el], D[1] + D[0][el] * Z
        if D[0][X] != -e or e not in (1, -1) or isinstance(X, tuple):
            continue
        alpha.add(X)
        if t[1] in ("Eq", "Ne"):
            # el + 1 = X: it is the last digit
            if d * e != 1:
                res = "off"
            else:
                res = (t[1] == "Eq") != bool(v)
        elif e == 1:
            # el - X + d < 0
            res = bool(v) if d == (1 if t[1] == "Lt" else 2) else "off"
        else:
            # X - el + d < 0: el > X + d;  the last digit is X - 1
            res = not v if d == (-2 if t[1] == "Lt" else -1) else "off"
    return res


def odometer(c, prof):
    a = c.A("enumerate", profile=prof)
    s = Loops(c, a)
    w = lambda k, b, what: c.violate("enumerate|%s|%s" % (a.fn(b), k), a.where(b), "enumerate: " + what)
    prints = [e["block"] for e in a.evs("_print", "write_all", "write_fmt", "write", "flush", "print") if not a.islog(e)]
    if not prints:
        w("none", 0, "no word is printed")
        return 1
    dig = []
    for (h, l) in a.g.phis:
        if h in a.g.heads and re.match(r"std::vec::Vec<(usize|u8|u32|u16|u64)>$", a.flat.local_ty[l]):
            n = next((i for i in range(len(a.n)) if a.n[i][:3] == ("phi", h, l)), None)
            if n is not None:
                dig.append((h, l, n))
    # the loop over the words is the largest that changes the digits
    top = max((len(s.body(x[0])) for x in dig), default=0)
    dig = [x for x in dig if len(s.body(x[0])) == top]
    if len(dig) != 1:
        c.sample("enumerate: not decided, there is not one array of digits that changes from word to word")
        return 0
    h, l, n = dig[0]
    rounds, ps = s.round_writes(h, l, n), s.paths(h)
    if not rounds or ps is None:
        c.sample("enumerate: not decided, how the digits change was not understood")
        return 0
    c.ok(1, "word loops")
    arr = root(a, n)
    # the length of the words and the first word
    outs = {a.strip(o) for q, o in a.g.phis[(h, l)].items() if not a.dominates(h, q)}
    made_ = a.n[root(a, next(iter(outs)))] if len(outs) == 1 else ("",)
    if made_[0] != "call" or made_[2].split("::")[-1] != "from_elem":
        c.sample("enumerate: not decided, the first word was not understood")
        return 1
    LEN = s.lin(made_[3][1])
    z = a.g.cval(a.strip(made_[3][0]))
    Z = 97 if z == 97 and "Vec<u8>" in a.flat.local_ty[l] else 0
    if z is not None and z != Z:
        w("first", h, "the first word is not the one of the letter a alone")
    own = set(LEN[0])
    alpha = set()
    # from word to word
    for p, q in rounds:
        b = p.blocks[-2]
        if torn(a, s, p):
            continue
        if not q:
            if not leaves(a, s, h, p):
                w("same", b, "the word is printed again")
            continue
        ups = [x for x in q if x[0] == "set"]
        loops = [x for x in q if x[0] == "loop"]
        if len(ups) == len(q) == 1:
            i = s.lin(p.resolve(ups[0][1]))
            if any(isinstance(k, tuple) and k[0] == "round" and k[1] in s.inner(h) and k[1] not in p.blocks[-1:] for k in i[0]):
                w("carry", b, "a digit is passed over without starting again")
        if any(x[0] not in ("set", "loop") for x in q) or len(loops) != 1 or q[0] != loops[0]:
            continue
        hl = loops[0][1]
        r = ("round", hl)
        back = addlin(addlin(LEN, ({}, -1)), ({r: 1}, 0), -1)
        c.ok(1, "steps to the next word")
        for pp, qq in loops[0][2]:
            if not qq:
                w("carry", pp.blocks[-2], "a digit is passed over without starting again")
                continue
            if len(qq) != 1 or qq[0][0] != "set":
                continue
            i, v = s.lin(pp.resolve(qq[0][1])), s.lin(pp.resolve(qq[0][2]))
            if leaps(a, s, hl, pp.resolve(qq[0][1])):
                w("place", pp.blocks[-2], "the digits are not gone through one after the other")
            if i != back and within(a, s, i, own | {r}):
                w("place", pp.blocks[-2], "the digits are not gone through from the last to the first")
            if v != ({}, Z) and not v[0]:
                w("zero", pp.blocks[-2], "a digit that has run through does not start again with the first letter")
            el = ("el", loops[0][3], freeze(i))
            k = next_digit(a, s, pp, el, alpha, Z)
            if k is True or k == "off":
                w("full", pp.blocks[-2], "a digit starts again before it has run through all letters")
        if not ups:
            if not leaves(a, s, h, p):
                w("none", b, "no digit goes up")
            continue
        i, v = s.lin(p.resolve(ups[0][1])), s.lin(p.resolve(ups[0][2]))
        if len(ups) > 1:
            if len(ups) == 2 and s.lin(p.resolve(ups[1][1])) == i and i == back:
                v2 = s.lin(p.resolve(ups[1][2]))
                k, = v2[0] if len(v2[0]) == 1 else (None,)
                if isinstance(k, tuple) and k[0] == "el" and thaw(k[2]) == i and (v[0] or v2[1] > 1):
                    w("up", b, "the digit does not go up by one")
            continue
        if i != back and within(a, s, i, own | {r}):
            w("place", b, "the digits are not gone through from the last to the first")
        el = ("el", loops[0][3], freeze(i))
        d = addlin(v, ({el: 1}, 0), -1)
        if d != ({}, 1) and within(a, s, d, {el} | own):
            w("up", b, "the digit does not go up by one")
        k = next_digit(a, s, p, el, alpha, Z)
        if k is False or k == "off":
            w("full", b, "a digit goes up beyond the last letter or not up to it")
        ex = [(x, y) for x in s.body(hl) for y in a.succ[x] if y not in s.body(hl) and y in a.normal]
        for k in limits(s, hl, ex):
            if k and k != LEN and within(a, s, k, own):
                w("digits", hl, "not every digit can go up")
    # the end
    for p in ps:
        if p.blocks[-1] == h or p.blocks[-1] in a.term or len(p.blocks) < 2:
            continue
        o = a.g.out.get((p.blocks[-2], p.blocks[-1]), {}).get(l)
        q = s.chain(a.strip(p.resolve(o)), n, p, 0) if o is not None and not torn(a, s, p) else None
        if q and q[-1][0] == "set":
            w("end", p.blocks[-2], "the words end although there is a next one")
    for x in alpha:
        if extreme(a, x) or option(a, x) in ("min_len", "max_len"):
            w("alphabet", h, "the digits do not run through the alphabet")
    # what is printed
    if not any(outputs(a, p) for p in ps):
        c.sample("enumerate: not decided, the words are not printed one by one")
        ps = []
    for p in ps:
        if p.blocks[-1] in a.term:
            continue
        text = outputs(a, p)
        b = p.blocks[-2]
        if not text:
            if p.blocks[-1] == h:
                w("print", b, "a word is not printed")
            continue
        if len(text) > 1 and all(x and lined([(b, x)]) for b, x in text):
            w("twice", b, "a word is printed twice")
        if any(x is None for _, x in text):
            continue
        parts = [y for _, x in text for y in x]
        args = [y for y in parts if y[0] == "arg"]
        if len(args) != 1:
            continue
        x = s.writes(a.strip(args[0][1]))
        if parts[0][0] != "arg" or len(parts) > 1 and parts[-1] != ("lit", b"\n"):
            w("line", text[0][0], "a word is not printed as a line of its own")
        elif len(parts) == 1 and x and len(x[1]) == 1:
            w("line", text[0][0], "a word is not printed as a line of its own")
        elif len(parts) == 1 and not x and not ended(a, s, args[0][1]):
            w("line", text[0][0], "a word is not printed as a line of its own")
        if not x or len(x[1]) != 1 or x[1][0][0] != "loop":
            continue
        hw = x[1][0][1]
        k = s.rounds(hw)
        r = ("round", hw)
        if k is not None and k != LEN and within(a, s, k, own | {("len", arr)}) and k != ({("len", arr): 1}, 0):
            w("letters", hw, "not every letter of a word is printed")
        for e in a.evs("next"):
            src = (s.source(e["args"][0]) or s.source(e["snaps"][0])) if e["block"] in s.body(hw) else None
            if src and src[0] in ("iter", "rev") and src[1] != arr and a.n[src[1]][0] == "slice" and root(a, a.n[src[1]][1]) == arr:
                rg = a.n[a.strip(a.n[src[1]][2])]
                if rg[0] == "agg" and rg[1][3] in ("Range", "RangeTo", "RangeFrom"):
                    lo = ZERO if rg[1][3] == "RangeTo" else s.lin(rg[2][0])
                    hi = LEN if rg[1][3] == "RangeFrom" else s.lin(rg[2][-1])
                    if (lo != ZERO or hi not in (LEN, ({("len", arr): 1}, 0))) and all(within(a, s, y, own | {("len", arr)}) for y in (lo, hi)):
                        w("letters", hw, "not every letter of a word is printed")
        for pp, qq in x[1][0][2]:
            if not qq:
                w("letters", pp.blocks[-2], "a letter of a word is not printed")
            if len(qq) != 1 or qq[0][0] != "push":
                continue
            v = s.lin(a.uncast(pp.resolve(qq[0][1])))
            if len(v[0]) != 1:
                continue
            (e, m), = v[0].items()
            if isinstance(e, int):
                y = s.val(a.uncast(e))
                e = ("el", y[1], freeze(y[2])) if y and y[0] == "el" else e
            if not isinstance(e, tuple) or e[0] != "el":
                continue
            if m != 1 or v[1] != 97 - Z:
                w("letter", pp.blocks[-2], "digit 0 is not printed as the letter a")
            pos = thaw(e[2])
            if pos != ({r: 1}, 0) and within(a, s, pos, own | {r, ("len", arr)}):
                w("order", pp.blocks[-2], "the letters are not printed in order")
    # the lengths
    outer_ = [x for x in a.g.heads if x != h and h in s.body(x)]
    if len(outer_) == 1:
        o = outer_[0]
        k, r = s.rounds(o), ("round", o)
        atoms = [x for x in set(LEN[0]) | set(k[0] if k else ()) if isinstance(x, int)]
        for x in atoms:
            if extreme(a, x):
                atoms += [z for y in extreme(a, x)[1] for z in s.lin(y)[0] if isinstance(z, int) and z not in atoms]
        opts = {x: option(a, x) for x in atoms if option(a, x)}
        lo, hi = [x for x, v in opts.items() if v == "min_len"], [x for x, v in opts.items() if v == "max_len"]
        if len(lo) == 1 and len(hi) <= 1 and within(a, s, LEN, set(opts) | {r}):
            if LEN != ({lo[0]: 1, r: 1}, 0):
                w("length", o, "a word does not have the length of its turn")
            if k and within(a, s, k, set(opts)) and (not hi or k != ({hi[0]: 1, lo[0]: -1}, 1)):
                w("lengths", o, "not every length from the least to the largest is taken")
        elif not lo and opts and within(a, s, LEN, set(opts) | {r}) or not LEN[0]:
            w("length", o, "a word does not have the length of its turn")
        for e in a.evs(*ADAPT | {"rev"}):
            if "Range" in e["atys"][0] and h in s.body(o) and e["block"] not in s.body(o) and e["block"] in a.term | set(a.normal):
                w("lengths", o, "not every length from the least to the largest is taken in order")
    return 1


def leaves(a, s, h, p):
    """may a loop be over behind this way, by a flag looked at before the next round?"""
    for b in s.body(h):
        if b in a.g.cond and any(x not in s.body(h) and x in a.normal for x in a.succ[b]):
            t = a.n[a.g.cond[b]]
            while t[0] == "not":
                t = a.n[t[1]]
            if t[0] == "phi" and t[1] == h:
                o = a.g.out.get((p.blocks[-2], h), {}).get(t[2])
                k = a.g.cval(a.strip(p.resolve(o))) if o is not None else None
                if k is None:
                    return True
                leave = [v for v, z in a.flat.blocks[b].t.get("ts", ()) if z.id not in s.body(h)]
                t0, flip = a.n[a.g.cond[b]], False
                while t0[0] == "not":
                    t0, flip = a.n[t0[1]], not flip
                if (bool(k) != flip) == (bool(leave[0]) if leave else True):
                    return True
    return False


def torn(a, s, p):
    """do the conditions on a way contradict each other?"""
    lo, hi, ne = {}, {}, set()
    last = {b: i for i, b in enumerate(p.blocks[:-1])}
    for i, b in enumerate(p.blocks[:-1]):
        # (the last round of a loop alone)
        if b not in a.g.cond or a.flat.blocks[b].t["k"] != "switch" or any(b in s.body(x) and i < last.get(x, -1) for x in s.inner(p.blocks[0])):
            continue
        vals = [q for q, x in a.flat.blocks[b].t.get("ts", ()) if x.id == p.blocks[i + 1]]
        t, v = a.n[p.resolve(a.g.cond[b], i)], vals[0] if len(vals) == 1 else 1 if not vals and a.cond_bool(b) else None
        while t[0] == "not" and v in (0, 1):
            t, v = a.n[t[1]], 1 - v
        if t[0] != "op" or t[1] not in ("Lt", "Le", "Eq", "Ne") or v not in (0, 1):
            continue
        D = addlin(s.lin(t[3]), s.lin(t[4]), -1)
        if len(D[0]) == 0:
            continue
        k = tuple(sorted(D[0].items(), key=repr))
        m = tuple(sorted(((x, -y) for x, y in D[0].items()), key=repr))
        for L in (s.lin(t[3]), s.lin(t[4])):
            if L[0] and t[2] in ("usize", "u8", "u16", "u32", "u64"):
                x, y = tuple(sorted(L[0].items(), key=repr)), tuple(sorted(((x, -y) for x, y in L[0].items()), key=repr))
                lo[x], hi[y] = max(lo.get(x, -L[1]), -L[1]), min(hi.get(y, L[1]), L[1])
        if t[1] in ("Eq", "Ne"):
            if (t[1] == "Eq") != bool(v):
                ne |= {(k, -D[1]), (m, D[1])}
            else:
                for q, e in ((k, -D[1]), (m, D[1])):
                    lo[q], hi[q] = max(lo.get(q, e), e), min(hi.get(q, e), e)
        else:
            # D < 0 or D <= 0
            e = -D[1] - (1 if t[1] == "Lt" else 0)
            if v:
                hi[k] = min(hi.get(k, e), e)
                lo[m] = max(lo.get(m, -e), -e)
            else:
                lo[k] = max(lo.get(k, e + 1), e + 1)
                hi[m] = min(hi.get(m, -e - 1), -e - 1)
    return any(q in hi and (lo[q] > hi[q] or lo[q] == hi[q] and (q, lo[q]) in ne) for q in lo)


def leaps(a, s, h, n):
    """does a counter change by more than one in every round of a loop?"""
    t = a.n[a.uncast(n)]
    if t[0] != "phi" or t[1] != h:
        return False
    back = {a.strip(o) for q, o in a.g.phis[(t[1], t[2])].items() if a.dominates(t[1], q)}
    d = [addlin(s.lin(o), ({a.uncast(n): 1}, 0), -1) for o in back]
    return bool(d) and all(not x[0] and abs(x[1]) > 1 for x in d)


def option(a, n):
    """the option of the command line a value is"""
    t = a.n[n]
    names = set()
    for x in a.deps(n):
        y = a.n[x]
        if y[0] == "call" and y[2].split("::")[-1] == "get_one" and len(y[3]) == 2:
            k = a.text_const(y[3][1])
            names.add(k.decode() if k else "?")
    if len(names) == 1:
        return names.pop()
    # the largest length is the least one if it is not given
    return "max_len" if names == {"min_len", "max_len"} and not extreme(a, n) else None
