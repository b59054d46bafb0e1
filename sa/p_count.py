"""C33: reverse writes the input backwards, count_sigma counts every byte value that occurs once"""
import re

from reg import prop
from p_io import SOME
from p_array import *
from p_array import Loops, freeze, root, thaw  # noqa
from p_out import short_text
from p_words import ADAPT, ZERO, made, outputs, pieces, within

SAME = {"iter", "into_iter", "copied", "cloned", "collect", "to_vec", "to_owned", "clone", "as_slice", "deref", "as_ref", "into", "from", "into_boxed_slice", "by_ref", "borrow", "from_iter", "iter_mut"}
KEEP = ("reserve", "shrink", "read", "truncate", "flush", "write", "try_reserve")


class Straight:
    def resolve(self, n, i=None):
        return n


def orders(a, s, n, d=0):
    """the orders a list of bytes may be in: of {0: that of the input, 1: backwards, "part": a part of it is turned or left out}; None: not understood"""
    n = a.strip(n)
    t = a.n[n]
    if d > 40:
        return None
    if t[0] in ("load", "at", "with", "ref") and isinstance(t[1], int):
        return orders(a, s, t[1], d + 1)
    if t[0] == "eff":
        k = a.n[t[1]]
        if k[0] != "call" or t[2] != 0:
            return {0} if k[0] == "call" and k[2].split("::")[-1].startswith("read") else None
        last = k[2].split("::")[-1]
        if last == "reverse":
            x = a.n[a.deref(a.strip(k[3][0]))]
            if x[0] == "slice" or "slice" in (a.n[a.strip(y)][0] for y in k[3]):
                r = a.n[a.strip(x[2])] if x[0] == "slice" else ("",)
                if r[0] == "agg" and r[1][3] == "RangeFull":
                    pass
                else:
                    return {"part"} if r[0] == "agg" else None
            r = orders(a, s, t[3], d + 1)
            return r and {1 - y if y in (0, 1) else y for y in r}
        if last.startswith(KEEP):
            return orders(a, s, t[3], d + 1) if not last.startswith("read") else {0}
        return None
    if t[0] == "phi" and t[1] not in a.g.heads:
        out = set()
        for o in set(a.g.phis[(t[1], t[2])].values()):
            r = orders(a, s, o, d + 1)
            if r is None:
                return None
            out |= r
        return out
    if t[0] == "phi":
        # a list filled in a loop
        x = pieces(s, Straight(), n)
        if not x or len(x) != 1:
            return None
        arr, lo, k = x[0]
        back = isinstance(arr, tuple)
        arr = arr[1] if back else arr
        if not read(a, arr):
            return None
        if lo != ZERO or k != s.len_of(arr):
            return {"part"} if within(a, s, lo, set(s.len_of(arr)[0])) and within(a, s, k, set(s.len_of(arr)[0])) else None
        r = orders(a, s, arr, d + 1)
        return r and {1 - y if y in (0, 1) and back else y for y in r}
    if t[0] == "slice":
        r = a.n[a.strip(t[2])]
        if r[0] == "agg" and r[1][3] == "RangeFull":
            return orders(a, s, t[1], d + 1)
        L = s.len_of(root(a, t[1]))
        if r[0] == "agg" and r[1][3] in ("Range", "RangeTo", "RangeFrom"):
            lo = ZERO if r[1][3] == "RangeTo" else s.lin(r[2][0])
            hi = L if r[1][3] == "RangeFrom" else s.lin(r[2][-1])
            if (lo, hi) == (ZERO, L):
                return orders(a, s, t[1], d + 1)
            return {"part"} if within(a, s, lo, set(L[0])) and within(a, s, hi, set(L[0])) else None
        return None
    if t[0] == "call" and t[3]:
        last = t[2].split("::")[-1]
        if last.startswith("read"):
            return {0}
        if last == "rev":
            r = orders(a, s, t[3][0], d + 1)
            return r and {1 - y if y in (0, 1) else y for y in r}
        if last in SAME:
            return orders(a, s, t[3][0], d + 1)
        if last in ("skip", "take", "step_by", "filter", "skip_while", "take_while") and len(t[3]) >= 2:
            k = a.g.cval(a.strip(t[3][1]))
            return {"part"} if orders(a, s, t[3][0], d + 1) and last != "take" and k not in (0,) and (k is not None or last == "filter") else None
    return None


def read(a, n):
    """does a value come from the input?"""
    return any(a.n[x][0] == "call" and a.n[x][2].split("::")[-1].startswith("read") for x in a.deps(n))


def turned(c, prof):
    a = c.A("reverse", {"outfilename": SOME()}, profile=prof)
    s = Loops(c, a)
    w = lambda k, b, what: c.violate("reverse|%s|%s" % (a.fn(b), k), a.where(b), "reverse: " + what)
    n = 0
    evs = [e for e in a.evs("write_all") if len(e["snaps"]) > 1 and not a.islog(e)]
    loose = [e for e in evs if not any(e["block"] in s.body(h) for h in a.g.heads)]
    short = short_text(a)
    if len(loose) == len(evs) == 1:
        e = loose[0]
        r = orders(a, s, e["snaps"][1])
        if r is None:
            c.sample("reverse: not decided, the order of what is written was not understood")
            return 0
        c.ok(1, "outputs")
        if "part" in r:
            w("part", e["block"], "a part of the input is left out or keeps its order")
        if 0 in r and not short:
            w("order", e["block"], "the input is written in its own order")
        n = 1
    for e in evs:
        hs = [h for h in a.g.heads if e["block"] in s.body(h)]
        if len(hs) != 1 or len(evs) != 1:
            continue
        h = hs[0]
        r = ("round", h)
        t = a.n[a.strip(e["snaps"][1])]
        if t[0] != "agg" or t[1][0] != "array" or len(t[2]) != 1:
            continue
        x = s.val(a.uncast(t[2][0]))
        k = s.rounds(h)
        if not x or x[0] != "el" or not read(a, x[1]) or k is None:
            continue
        o = orders(a, s, x[1])
        L = s.len_of(x[1])
        ps = s.paths(h)
        c.ok(1, "outputs")
        n = 1
        if o == {0} and within(a, s, x[2], set(L[0]) | {r}) and within(a, s, k, set(L[0])):
            if k != L:
                w("part", h, "not every byte of the input is written")
            elif x[2] != addlin(addlin(L, ({}, -1)), ({r: 1}, 0), -1):
                w("order", h, "the bytes are not written from the last to the first")
        if any(p.blocks[-1] == h and e["block"] not in p.blocks for p in ps or ()):
            w("part", h, "a byte of the input is not written")
    return n


def printed(a, name):
    """[(block, value)] printed behind name="""
    out = []
    for e in a.evs("_print", "write_fmt"):
        if a.islog(e):
            continue
        ps = a.fmt(e["args"][-1])
        for x, y in zip(ps or (), (ps or ())[1:]):
            if x[0] == "lit" and x[1].endswith(name) and y[0] == "arg":
                out.append((e["block"], y[1]))
    return out


def occupied(a, s, p, arr, idx, E=0):
    """what the conditions of a round tell about table[idx]: True: it is set, False: not, None: nothing, "odd": something else"""
    el = ("el", arr, freeze(idx))
    res = None
    for cnd, v, b in p.conds():
        t = a.n[cnd]
        while t[0] == "not" and v in (0, 1):
            t, v = a.n[t[1]], 1 - v
        if v not in (0, 1):
            x = s.lin(cnd)
            if el in x[0] and x == ({el: 1}, 0) and v == ("not", (0,)):
                res = True
            elif el in x[0]:
                return "odd"
            continue
        if t[0] == "op" and t[1] in ("Eq", "Ne", "Lt", "Le"):
            x, y = s.lin(t[3]), s.lin(t[4])
            D = addlin(x, y, -1)
            if el not in D[0]:
                continue
            if len(D[0]) != 1 or abs(D[0][el]) != 1:
                return None if t[1] in ("Eq", "Ne") else "odd"
            D = D[0], D[1] + D[0][el] * E
            if t[1] in ("Eq", "Ne"):
                if D[1]:
                    return "odd"
                res = (t[1] == "Ne") == bool(v)
            else:
                # e*el + d < 0
                d = D[1] - (1 if t[1] == "Le" else 0)
                if D[0][el] == 1 and d == -1:
                    res = not v
                elif D[0][el] == -1 and d == 0:
                    res = bool(v)
                else:
                    return "odd"
        else:
            x = s.lin(cnd)
            if t[0] != "op" and x == ({el: 1}, 0):
                res = bool(v)
            elif el in x[0]:
                return "odd"
    return res


def distinct(c, prof):
    a = c.A("count_sigma", profile=prof)
    s = Loops(c, a)
    w = lambda k, b, what: c.violate("count_sigma|%s|%s" % (a.fn(b), k), a.where(b), "count_sigma: " + what)
    n = 0
    for b, v in printed(a, b"sigma="):
        x = s.lin(a.uncast(v))
        ph = [k for k in x[0] if isinstance(k, int) and a.n[k][0] == "phi" and a.n[k][1] in a.g.heads]
        ex = extreme(a, next(iter(x[0]))) if len(x[0]) == 1 and isinstance(next(iter(x[0])), int) else None
        if ex:
            ks = [a.g.cval(a.strip(y)) for y in ex[1]]
            k = [q for q in ks if q is not None]
            if len(k) == 1 and 0 < k[0] < 256:
                w("bound", b, "the number printed is not the one counted")
        if len(x[0]) != 1 or len(ph) != 1:
            c.sample("count_sigma: not decided, the number is not counted in a loop")
            continue
        i = ph[0]
        h, l = a.n[i][1], a.n[i][2]
        if x[0][i] != 1 or x[1] != 0:
            w("offset", b, "the number printed is not the one counted")
        tabs = []
        for (h2, l2) in a.g.phis:
            if h2 == h and re.match(r"std::vec::Vec<|\[", a.flat.local_ty[l2]):
                m = next((q for q in range(len(a.n)) if a.n[q][:3] == ("phi", h, l2)), None)
                if m is not None:
                    tabs.append((l2, m))
        if not tabs:
            for p in s.paths(h) or ():
                if p.blocks[-1] == h:
                    o = a.g.out.get((p.blocks[-2], h), {}).get(l)
                    d = addlin(s.lin(a.strip(p.resolve(o))), ({i: 1}, 0), -1) if o is not None else ZERO
                    look = [k for cnd, v2, b2 in p.conds() for y in sides(a, cnd) for k in s.lin(y)[0] if isinstance(k, tuple) and k[0] == "el" and a.n[k[1]][0] == "call" and a.n[k[1]][2].endswith("from_elem")]
                    if d == ({}, 1) and look:
                        w("forgot", p.blocks[-2], "a byte value counted is not remembered")
                        n = 1
        if len(tabs) != 1:
            c.sample("count_sigma: not decided, there is not one table")
            continue
        (tl, tn), = tabs
        rounds = s.round_writes(h, tl, tn)
        if not rounds:
            c.sample("count_sigma: not decided, the changes of the table were not understood")
            continue
        arr, r = root(a, tn), ("round", h)
        n = 1
        # the start
        outs = {a.strip(o) for q, o in a.g.phis[(h, l)].items() if not a.dominates(h, q)}
        for o in outs:
            k = a.g.cval(o)
            if k is not None and k != 0:
                w("start", h, "the count does not start with 0")
        E = 0
        for o in {a.strip(o) for q, o in a.g.phis[(h, tl)].items() if not a.dominates(h, q)}:
            t = a.n[root(a, o)]
            z = a.g.cval(a.strip(t[3][0])) if t[0] == "call" and t[2].split("::")[-1] == "from_elem" else a.g.cval(a.strip(t[1])) if t[0] == "repeat" and isinstance(t[1], int) else None
            if z is not None:
                E = z
        # the bytes seen
        nx = [e for e in a.evs("next") if e["block"] in s.body(h) and not any(e["block"] in s.body(y) for y in s.inner(h))]
        src = (s.source(nx[0]["args"][0]) or s.source(nx[0]["snaps"][0])) if len(nx) == 1 else None
        if src and src[0] == "iter" and src[2] != ZERO and within(a, s, src[2], set()):
            w("bytes", h, "not every byte of the text is looked at")
        if src and src[0] in ("iter", "rev") and a.n[src[1]][0] == "slice" and orders(a, s, src[1]) == {"part"}:
            w("bytes", h, "not every byte of the text is looked at")
        for e in a.evs(*ADAPT):
            if e["block"] not in s.body(h) and orders(a, s, e["snaps"][0]):
                k = a.g.cval(a.strip(e["snaps"][1])) if len(e["snaps"]) > 1 else None
                if e["last"] in ("skip", "step_by") and k not in (None, 0) or e["last"] == "take" and k is not None and k < 1 << 63 or e["last"] in ("filter", "skip_while", "take_while", "filter_map"):
                    w("bytes", e["block"], "not every byte of the text is looked at")
        for bb in s.body(h):
            for y in a.succ[bb]:
                if y in s.body(h) or y not in a.normal or bb not in a.g.cond or a.n[a.g.cond[bb]][0] == "discr":
                    continue
                t = a.n[a.g.cond[bb]]
                while t[0] == "not":
                    t = a.n[t[1]]
                if t[0] == "op" and t[1] in ("Eq", "Ne", "Lt", "Le"):
                    D = addlin(s.lin(t[3]), s.lin(t[4]), -1)
                    # the least count at which the loop may be left
                    k = abs(D[1]) if t[1] in ("Eq", "Ne") else -D[1] + (t[1] == "Le") if D[0].get(i) == 1 else D[1] + (t[1] == "Lt")
                    if set(D[0]) == {i} and abs(D[0][i]) == 1 and k < 256:
                        w("early", bb, "the count ends before all byte values have been found")
        for p, q in rounds:
            bb = p.blocks[-2]
            o = a.g.out.get((bb, h), {}).get(l)
            d = addlin(s.lin(a.strip(p.resolve(o))), ({i: 1}, 0), -1) if o is not None else ZERO
            if d[0]:
                continue
            c.ok(1, "ways through a round")
            if d[1] not in (0, 1):
                w("count", bb, "a byte value is not counted as one")
                continue
            sets = [y for y in q if y[0] == "set"]
            if len(sets) != len(q) or len(sets) > 1:
                continue
            # the place of the byte in the table
            idx = s.lin(p.resolve(sets[0][1])) if sets else None
            if idx is None:
                places = {k[2] for cnd, v2, b2 in p.conds() for y in sides(a, cnd) for k in s.lin(y)[0] if isinstance(k, tuple) and k[0] == "el" and k[1] == arr}
                if len(places) != 1:
                    if d[1] == 1 and not any(tn in a.deps(cnd) for cnd, v2, b2 in p.conds()):
                        w("again", bb, "a byte is counted without a look at the table")
                    continue
                idx = thaw(next(iter(places)))
            looked = {k[2] for cnd, v2, b2 in p.conds() for y in sides(a, cnd) for k in s.lin(y)[0] if isinstance(k, tuple) and k[0] == "el" and k[1] == arr}
            if d[1] == 1 and sets and len(looked) == 1 and freeze(idx) not in looked and len(idx[0]) == 1 and all(len(thaw(y)[0]) == 1 for y in looked):
                w("place", bb, "the entry written is not the one looked at")
                continue
            if any(tn in a.deps(cnd) and occupied(a, s, p, arr, idx, E) is None for cnd, v2, b2 in p.conds()):
                continue
            if len(idx[0]) == 1:
                (k, m), = idx[0].items()
                t = a.n[k] if isinstance(k, int) else ("",)
                if t[0] == "op" and t[1] in ("BitAnd", "BitOr", "Shr", "Shl", "Div", "Rem", "Mul", "BitXor") and a.g.cval(a.strip(t[4])) is not None:
                    kk = a.g.cval(a.strip(t[4]))
                    if not (t[1] == "BitAnd" and kk & 255 == 255 or t[1] == "Rem" and kk >= 256 or t[1] in ("BitXor",) or t[1] == "Mul" and kk % 2):
                        w("place", bb, "different byte values share a place in the table")
            occ = occupied(a, s, p, arr, idx, E)
            if occ is None and any(tn in a.deps(cnd) for cnd, v2, b2 in p.conds()):
                continue        # entries of several parts
            if d[1] == 1:
                if occ is True:
                    w("again", bb, "a byte value that has been counted is counted again")
                elif occ is None:
                    w("again", bb, "a byte is counted without a look at the table")
                elif occ == "odd":
                    w("again", bb, "whether a byte value has been counted is not told by its entry being empty")
                if not sets:
                    w("forgot", bb, "a byte value counted is not remembered")
                else:
                    z = s.lin(p.resolve(sets[0][2]))
                    if z == ({}, E) or z == ({i: 1}, 0) and E == 0:
                        w("forgot", bb, "a byte value counted is not remembered")
            else:
                if occ is False:
                    w("missed", bb, "a byte value seen for the first time is not counted")
                if sets and s.lin(p.resolve(sets[0][2])) == ({}, E):
                    w("forgot", bb, "a byte value counted is forgotten")
    return n


def sides(a, cnd):
    t = a.n[cnd]
    while t[0] == "not":
        t = a.n[t[1]]
    return t[3:5] if t[0] == "op" else (cnd,)


@prop("C33", "the order of what reverse writes is followed through the value graph of its MIR (reversals, copies, slices, loops that append or write); "
      "the round of count_sigma's loop is summarised (table entry looked at, entry written, count) and must count exactly the bytes whose entry is empty")
def c33(c):
    n = 0
    for prof in c.profiles():
        if "reverse" in c.tools(prof):
            n += turned(c, prof)
        if "count_sigma" in c.tools(prof):
            n += distinct(c, prof)
    c.floor("tools", n, 0)
