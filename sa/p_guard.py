"""Inputs and arguments that must be refused: C15, C16."""
import re
from common import *
from reg import prop
from p_out import reads
from p_byte import bytety
from p_cli import variants_of

FIRSTARG = {"iter", "into_iter", "copied", "cloned", "enumerate", "as_slice", "deref", "as_ref", "borrow", "rev", "by_ref", "inspect", "peekable", "fuse", "to_vec", "clone",
            "iter_mut", "bytes", "as_bytes", "as_mut_slice", "deref_mut"}
DROPS = {"skip", "take", "step_by", "filter", "skip_while", "take_while", "map_while", "chunks_exact", "nth", "dedup", "get"}


def zero_tests(a):
    """{node: ('z', element node)}: comparisons of a byte of the input with 0"""
    rd = reads(a)
    out = {}

    def fromtext(x):
        return bool(a.deps(x) & rd)
    for b in a.reached:
        t = a.flat.blocks[b].t
        for ev in a.g.trace.get(b, ()):
            if ev[0] == "bin" and bytety(ev[4]) == "u8":
                for x, y in ((ev[5], ev[6]), (ev[6], ev[5])):
                    k = a.g.cval(a.strip(y))
                    if k is not None and (k == 0 or k == 1 and ev[3] in ("Lt", "Ge", "Gt", "Le")) and fromtext(x):
                        out[ev[1]] = (b, x)
        if t["k"] == "switch" and b in a.g.cond:
            o = t["o"]
            ty = o["p"]["ty"] if o["k"] in ("copy", "move") else o.get("ty")
            if ty == "u8" and any(v == 0 for v, _ in t["ts"]) and fromtext(a.g.cond[b]):
                out[a.g.cond[b]] = (b, a.g.cond[b])
        e = a.events.get(b)
        if e and e["last"] in ("contains", "memchr", "starts_with") and len(e["snaps"]) > 1:
            for i in (0, 1):
                if a.g.cval(a.strip(e["snaps"][1 - i])) == 0 and fromtext(e["snaps"][i]) and "node" in e:
                    out[e["node"]] = (b, e["snaps"][i])
    for n in range(len(a.n)):
        t = a.n[n]
        if t[0] == "call" and t[2].split("::")[-1] in ("contains", "memchr") and len(t[3]) > 1:
            for i in (0, 1):
                x = a.strip(t[3][1 - i])
                k = a.g.cval(x)
                if k is None and a.n[x][0] in ("ref", "with", "at"):
                    k = a.g.cval(a.deref(x)) if hasattr(a, "deref") else None
                if k == 0 and fromtext(t[3][i]):
                    out[n] = (t[1], t[3][i])
        if t[0] == "call" and t[2].split("::")[-1] in ("eq", "ne", "is_some_and", "is_none_or") and len(t[3]) > 1 or t[0] == "op" and t[1] in ("Eq", "Ne") and bytety(t[2]) != "u8":
            xs = t[3] if t[0] == "call" else t[3:5]
            for i in (0, 1):
                if any(a.n[y] == ("const", "u8", 0) or a.n[y][0] == "const" and "u8" in a.n[y][1] and a.n[y][2] in (("bytes", (0,)), ("ptrs", (("bytes", (0,)),)))
                       for y in a.deps(xs[1 - i])) and not fromtext(xs[1 - i]) and fromtext(xs[i]):
                    out[n] = (a.entry, xs[i])
    return out


def extent(a, n, d=0):
    """which part of the text is looked at: 'all', ('partial', why) or None if unknown"""
    t = a.n[n]
    if d > 40:
        return None
    k = t[0]
    if k in ("at", "with", "load"):
        return extent(a, t[1], d + 1)
    if k == "hofarg":
        return extent(a, t[5][0], d + 1) if t[5] else None
    if k == "proj":
        if t[2][0] == "i":
            if isinstance(a.g.cval(t[2][1]), int):
                return ("partial", "only position %d is looked at" % a.g.cval(t[2][1]))
            return index_extent(a, t[1], t[2][1]) or extent(a, t[1], d + 1)
        return extent(a, t[1], d + 1)
    if k == "call":
        last = t[2].split("::")[-1]
        if last in DROPS and t[3]:
            if last in ("skip", "nth") and len(t[3]) > 1 and a.g.cval(t[3][1]) == 0:
                return extent(a, t[3][0], d + 1)
            if last == "take" and len(t[3]) > 1:
                r = upto(a, t[3][1])
                if r is None or r == "ok":
                    return extent(a, t[3][0], d + 1)
            if last == "get":
                return None
            return ("partial", "%s leaves out positions" % last)
        if last in ("next", "index", "split_last", "split_at", "first", "unwrap", "next_back") or last in FIRSTARG:
            return extent(a, t[3][0], d + 1) if t[3] else None
        return "all"
    if k == "slice":
        r = a.n[t[2]]
        if r[0] == "agg":
            nm = r[1][1].split("::")[-1]
            lo = r[2][0] if nm in ("Range", "RangeFrom") else None
            hi = r[2][1] if nm == "Range" else r[2][0] if nm in ("RangeTo", "RangeToInclusive") else None
            return bounds(a, lo, hi, nm == "RangeToInclusive") or extent(a, t[1], d + 1)
        return extent(a, t[1], d + 1)
    if k == "phi":
        rs = [extent(a, o, d + 1) for o in a.g.phi_ops(n) if o != n][:6]
        return next((r for r in rs if isinstance(r, tuple)), rs[0] if rs else None)
    if k == "eff":
        return "all"
    return None


def bounds(a, lo, hi, incl=False):
    if lo is not None:
        v = a.g.cval(lo)
        if v is not None and v > 0:
            return ("partial", "the first %d positions are left out" % v)
    if hi is not None:
        r = upto(a, hi, incl)
        if isinstance(r, tuple):
            return r
    return None


def upto(a, hi, incl=False):
    """is the bound at least the length minus one?"""
    t = a.n[a.uncast(hi)]
    if t[0] == "const":
        return ("partial", "only the first %s positions are looked at" % t[2]) if isinstance(t[2], int) else None
    if t[0] == "len":
        return "ok"
    if t[0] == "op" and t[1] == "Sub" and a.n[a.strip(t[3])][0] in ("len", "call"):
        k = a.g.cval(t[4])
        if k is not None:
            return "ok" if k <= 1 + int(incl) else ("partial", "the last %d positions before the terminator are left out" % (k - 1 - int(incl)))
    if t[0] == "op" and t[1] in ("Div", "Shr", "Rem"):
        return ("partial", "only a part of the positions is looked at")
    if t[0] == "call" and t[2].split("::")[-1] == "min":
        return next((r for r in (upto(a, x, incl) for x in t[3]) if isinstance(r, tuple)), None)
    if t[0] == "call" and t[2].split("::")[-1] in ("saturating_sub", "wrapping_sub"):
        k = a.g.cval(t[3][1])
        if k is not None and a.n[a.strip(t[3][0])][0] == "len":
            return "ok" if k <= 1 + int(incl) else ("partial", "the last %d positions before the terminator are left out" % (k - 1 - int(incl)))
    return None


def index_extent(a, base, i):
    """the positions an index runs over"""
    for y in a.deps(a.uncast(i)):
        u = a.n[y]
        if u[0] == "call" and u[2].split("::")[-1] == "next" and u[3]:
            for z in a.deps(u[3][0]):
                w = a.n[z]
                if w[0] == "agg" and w[1][1].endswith(("ops::Range", "range::Range")) and len(w[2]) == 2:
                    r = bounds(a, w[2][0], w[2][1])
                    if r:
                        return r
    return None


def refusals(a):
    """branches one side of which cannot end normally: {block: condition}"""
    out = {}
    for b in a.reached:
        if b in a.g.cond and len(a.succ[b]) > 1 and a.flat.blocks[b].t["k"] != "assert":
            if any(s in a.normal for s in a.succ[b]) and any(s not in a.normal for s in a.succ[b]):
                out[b] = a.g.cond[b]
    return out


def before(a, g, s, zt=()):
    """does every path to s run through g, through the loop g stands in, or past g because of the bytes looked at?"""
    if a.dominates(g, s):
        return True
    x = g
    idom = a.dom()
    while x in idom and x != a.entry:
        x = idom[x]
        if x in a.g.cond and len(a.succ[x]) > 1 and a.flat.blocks[x].t["k"] != "assert" and not zero_deps(a, a.g.cond[x], zt) \
                and not passed_if_empty(a, x, g):
            break
        if a.dominates(x, s):
            return s in a.reach_from(g)
    x = g
    while x in idom and x != a.entry:
        x = idom[x]
        if x in a.reach_from(g) and g in a.reach_from(x) and a.dominates(x, s):
            return True
        if not (g in a.reach_from(g)):
            return False
    return False


def passed_if_empty(a, x, g):
    """is x a branch that leads past g only when there is nothing to look at?"""
    want = filled(a, a.g.cond[x])
    if want is None:
        return False
    t = a.flat.blocks[x].t
    full = next((y.id for v, y in t["ts"] if v == want), t["ow"].id)
    return full != next((y.id for v, y in t["ts"] if v != want), t["ow"].id) and a.dominates(full, g)


def filled(a, n):
    """value of a condition that asks only whether a text has bytes (more than the terminator), if it has; None for other conditions"""
    t = a.n[n]
    if t[0] in ("at", "with"):
        return filled(a, t[1])
    if t[0] == "discr":
        c = a.n[a.strip(t[1])]
        return 1 if c[0] == "call" and c[2].split("::")[-1] in ("last", "first", "split_last", "split_first", "last_mut", "checked_sub") and \
            (c[2].split("::")[-1] != "checked_sub" or a.n[a.strip(c[3][0])][0] == "len" and a.g.cval(c[3][1]) in (1, 2)) else None
    if t[0] == "call" and t[2].split("::")[-1] == "is_empty":
        return 0
    if t[0] == "op" and t[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
        for x, y, sw in ((t[3], t[4], False), (t[4], t[3], True)):
            k = a.g.cval(y)
            if a.n[a.strip(x)][0] == "len" and k in (0, 1, 2):
                f = {"Eq": lambda v: v == k, "Ne": lambda v: v != k, "Lt": (lambda v: k < v) if sw else lambda v: v < k,
                     "Le": (lambda v: k <= v) if sw else lambda v: v <= k, "Gt": (lambda v: k > v) if sw else lambda v: v > k,
                     "Ge": (lambda v: k >= v) if sw else lambda v: v >= k}[t[1]]
                big = f(9)
                return int(big) if all(f(v) == big for v in (2, 3)) else None
    return None


def zero_deps(a, cond, zt):
    """the zero tests a condition comes from"""
    ds = a.ctldeps(cond)
    out = [z for z in zt if z in ds]
    for z in zt:
        if z in out:
            continue
        for h in a.deps(z):
            t = a.n[h]
            if t[0] == "hofarg" and t[5]:
                if any(a.n[y][0] == "call" and a.n[y][3] and a.strip(a.n[y][3][0]) == a.strip(t[5][0]) for y in ds):
                    out.append(z)
                    break
    return out


SORTING = {"bwt": "bwt_from_text_by_sa", "count_r": "bwt_from_text_by_sa", "entropy": "kth_order_entropy"}


@prop("C15", "dominator and dataflow analysis in every flattened calling context: each call of the suffix sorter in bwt, count_r and entropy is preceded, "
      "on every path and in the release build, by a branch that cannot end normally and whose condition comes from a comparison of the bytes of the same text with 0, "
      "over all positions but the last")
def c15(c):
    n = 0
    for prof in c.profiles():
        for tool in SORTING:
            a = c.A(tool, profile=prof)
            zt, rf = zero_tests(a), refusals(a)
            caught(c, a, c.explorer(a, end_extras(a)), tool, [g for g, cond in rf.items() if zero_deps(a, cond, zt)], "the check for the byte 0")
            for e in a.evs():
                if e["last"] != "sort_in_place" or e["block"] not in a.normal:
                    continue
                s = e["block"]
                n += 1
                c.ok(1, "suffix sorts")
                key = "%s|%s" % (tool, a.fn(s))
                gs = [(g, z) for g, cond in rf.items() for z in zero_deps(a, cond, zt) if before(a, g, s, zt)]
                if not gs:
                    late = [g for g, cond in rf.items() if zero_deps(a, cond, zt)]
                    c.violate(key + "|guard", a.where(s), "%s: a text that contains the byte 0 reaches the suffix sorter: %s" % (
                        tool, "the check at %s does not lie on every path" % a.where(late[0]) if late else "nothing refuses it"))
                    continue
                exts = [extent(a, zt[z][1]) for g, z in gs]
                if all(isinstance(x, tuple) for x in exts):
                    c.violate(key + "|range", a.where(gs[0][0]), "%s: the check for the byte 0 does not see the whole text: %s" % (tool, exts[0][1]))
                c.sample("%s: sort at %s guarded at %s, looks at %s" % (tool, a.where(s), a.where(gs[0][0]), exts[0]))
    c.floor("suffix sorts", n, 3)


# ------------------------------------------------------------------------------------------------ C16
M64 = 2 ** 64 - 1
# argument values that must be refused / accepted: (tool, {argument: value}, accepted)
CASES = [("entropy_kmer", dict(order=v), 1 <= v <= 7) for v in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 64, 255, 256, 257, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 63, M64)] + \
        [("lyndonwords", dict(sigma=v), 1 <= v <= 159) for v in (0, 1, 2, 26, 97, 158, 159, 160, 161, 255, 256, 257, 415, 2 ** 32 + 2, M64)] + \
        [("enumerate", dict(alphabet_size=x, min_len=y, max_len=z), ok) for x, y, z, ok in
         ((0, 1, 1, 0), (1, 1, 1, 1), (2, 1, 1, 1), (26, 1, 2, 1), (27, 1, 1, 0), (28, 2, 3, 0), (256, 1, 1, 0), (257, 1, 2, 0), (M64, 1, 1, 0), (2, 0, 0, 0),
          (2, 0, 3, 0), (2, 3, 2, 0), (2, 2, 1, 0), (2, 3, 3, 1), (2, 3, 4, 1), (2, 1, 0, 0), (2, 5, 1, 0), (26, M64, 1, 0), (1, 7, 9, 1))] + \
        [("enumerate", dict(alphabet_size=x, min_len=y), ok) for x, y, ok in ((0, 1, 0), (27, 1, 0), (2, 0, 0), (26, 1, 1), (1, 5, 1))] + \
        [("entropy", dict(order=v), True) for v in (0, 1, 2, 7, 8, 100, M64)] + \
        [("randomstring", dict(alphabet_size=v), True) for v in (0, 1, 2, 26, 62)]


def unresolved(a, vals):
    """a branch on the given values that constant propagation does not decide"""
    rd = reads(a)
    for b, cond in refusals(a).items():
        ds = a.deps(cond)
        if ds & rd or inloop(a, b):
            continue
        for y in ds:
            t = a.n[y]
            if t[0] == "call" and not a.g.is_parse(t) and t[2].split("::")[-1] not in ("next", "new", "into_iter", "from_elem", "with_capacity"):
                if any(a.n[a.deref(q)][0] == "const" and a.n[a.deref(q)][2] in vals for q in t[3]):
                    return b
    return None


def fieldset(a, n, stoplen=False):
    """the command line arguments a value comes from"""
    out, seen, todo = set(), set(), [n]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        t = a.n[x]
        if t[0] == "proj" and len(t[2]) > 2 and a.n[t[1]][0] == "call" and a.g.is_parse(a.n[t[1]]):
            out.add(t[2][2])
            continue
        if stoplen and t[0] in ("len",):
            for f in fieldset(a, t[1]):
                out.add("#" + f)
            continue
        if stoplen and t[0] == "proj" and t[2][0] == "i":
            todo.append(t[1])
            continue
        if stoplen and t[0] == "slice":
            todo.append(t[1])
            continue
        if stoplen and t[0] == "call" and t[2].split("::")[-1] in ("len", "count") and t[3]:
            for f in fieldset(a, t[3][0]):
                out.add("#" + f)
            continue
        todo += a.ops(x)
    return out


def membership(a):
    """tests whether values of two arguments are equal: [(block, node, fields, fields)]"""
    out = []
    for n in range(len(a.n)):
        t = a.n[n]
        if t[0] == "op" and t[1] in ("Eq", "Ne"):
            l, r = fieldset(a, t[3], True), fieldset(a, t[4], True)
            out.append((n, l, r))
        elif t[0] == "proj" and t[2][0] == "i":
            r = fieldset(a, t[2][1], True)
            if r:
                out.append((n, fieldset(a, t[1]), r))
        elif t[0] == "call" and t[2].split("::")[-1] in ("contains", "is_disjoint", "is_subset", "is_superset", "intersection", "eq", "ne", "binary_search", "contains_key", "get",
                                                         "insert", "starts_with", "difference", "memchr", "replace", "remove", "entry", "union") and len(t[3]) > 1:
            out.append((n, fieldset(a, t[3][0], True), fieldset(a, t[3][1], True)))
    return out


GUARDS = [("the lists of --from and --to symbols differ in length", {"#from_symbols"}, {"#to_symbols"}, "length"),
          ("a --from symbol is the escape symbol", {"from_symbols"}, {"escape_symbol"}, "from"),
          ("a --to symbol is the escape symbol", {"to_symbols"}, {"escape_symbol"}, "to"),
          ("a --from symbol is also a --to symbol", {"from_symbols"}, {"to_symbols"}, "both"),
          ("two --to symbols are equal", {"to_symbols"}, {"to_symbols"}, "distinct")]
PLAIN = {"contains", "any", "all", "iter", "next", "into_iter", "len", "deref", "as_slice", "index", "is_disjoint", "is_subset", "intersection", "copied", "cloned", "parse",
         "position", "find", "zip", "enumerate", "skip", "take", "insert", "new", "with_capacity", "collect", "eq", "ne", "get", "contains_key", "is_none", "is_some", "from_elem",
         "index_mut", "push", "extend", "extend_from_slice"}


def c16_escape(c, a):
    rf = refusals(a)
    n = 0
    ms = membership(a)
    rd = reads(a)
    writes = [e["block"] for e in a.evs() if e["last"] in ("write_all", "write", "write_fmt") and e["block"] in a.normal]
    conds = []
    for b, cond in rf.items():
        ds = set(a.ctldeps(cond))
        if ds & rd or not all(before(a, b, w) for w in writes):
            continue
        # what closures of the calls in the condition look at
        recv = {a.strip(a.n[y][3][0]) for y in ds if a.n[y][0] == "call" and a.n[y][3]}
        conds.append((b, cond, ds, recv))

    def linked(m, ds, recv):
        if m in ds:
            return True
        return any(a.n[h][0] == "hofarg" and a.n[h][5] and a.strip(a.n[h][5][0]) in recv for h in a.deps(m))
    fails_everything = True
    for what, x, y, key in GUARDS:
        n += 1
        c.ok(1, "guards of escape")
        good = False
        for m, l, r in ms:
            if not (x <= l and y <= r or x <= r and y <= l):
                continue
            if key != "distinct" and (len(l) > 3 or len(r) > 3):
                continue
            if any(linked(m, ds, recv) for b, cond, ds, recv in conds):
                good = True
                break
        if not good and key == "distinct":
            # the size of a set of the symbols compared with the number of symbols
            good = any(a.n[m][0] == "op" and "#to_symbols" in l and "#to_symbols" in r for m, l, r in ms if any(m in ds for _, _, ds, _ in conds))
        if not good:
            # a test in a form the rule does not know
            for b, cond, ds, recv in conds:
                fs = set()
                for q in ds:
                    t = a.n[q]
                    if t[0] == "call" and not a.g.is_parse(t) and t[2].split("::")[-1] not in PLAIN:
                        fs |= {f.strip("#") for f in fieldset(a, q)}
                if {f.strip("#") for f in x | y} <= fs:
                    good = True
        if not good:
            c.violate("escape|guard|" + key, "escape::main", "escape does not refuse its options if %s: such a mapping cannot be reverted" % what)
    return n


@prop("C16", "conditional constant propagation: each tool is analysed once per boundary value of its arguments, with the value known (22 orders, 15 alphabet sizes, 24 ranges); for a value outside the "
      "documented range no normal ending may be reachable, for one inside it must be. escape: for each of the five conditions under which a mapping cannot be "
      "reverted there is a refusing branch that compares the arguments concerned. is_stringattractor: on every path the exit status agrees with the verdict printed")
def c16(c):
    n = 0
    for prof in c.profiles():
        for tool, vals, ok in CASES:
            flds = argfields(c, tool)
            seeds = {}
            for k, v in vals.items():
                ty = flds.get(k, "usize")
                if ty not in INT:
                    seeds = None
                    break
                if v > INT[ty][1]:
                    seeds = None
                    break
                seeds[k] = ("const", ty, v)
            if seeds is None:
                continue
            if tool == "enumerate" and "max_len" not in seeds:
                seeds["max_len"] = ("variant", "std::option::Option", 0, "None", 0)
            a = c.A(tool, seeds, profile=prof)
            n += 1
            c.ok(1, "argument values")
            txt = " ".join("%s=%d" % (k, v) for k, v in vals.items())
            key = "%s|%s" % (tool, txt)
            if ok and not a.normal_ends:
                c.violate(key, a.root, "%s refuses %s, which is in the documented range" % (tool, txt))
            if not ok and a.normal_ends and unresolved(a, set(vals.values())) is None:
                c.violate(key, a.root, "%s accepts %s, which is outside the documented range" % (tool, txt))
        for tool in c.tools(prof):
            a = c.A(tool, profile=prof)
            rd = reads(a)
            caught(c, a, c.explorer(a, end_extras(a)), tool, [g for g, cond in refusals(a).items() if not a.deps(cond) & rd], "a check of the arguments")
        n += c16_escape(c, c.A("escape", profile=prof))
    c.floor("argument values and guards", n, 60)


# ------------------------------------------------------------------------------------------------ C27
def direct(a, n, d=0):
    """is n computed from command line arguments and constants alone, without loops or calls?"""
    t = a.n[n]
    if d > 30:
        return False
    if t[0] == "const":
        return True
    if t[0] == "sym":
        return True
    if t[0] == "proj" and a.n[t[1]][0] == "call":
        return a.g.is_parse(a.n[t[1]])
    if t[0] in ("op", "cast"):
        return all(direct(a, x, d + 1) for x in a.ops(n))
    if t[0] in ("at", "with", "load"):
        return direct(a, t[1], d + 1)
    if t[0] == "call" and t[2].split("::")[-1] in ("into", "from", "clone", "to_owned", "get_one", "unwrap", "min", "max") and t[3]:
        return all(direct(a, x, d + 1) for x in t[3][:2])
    if t[0] == "phi" and not any(a.dominates(t[1], p) for p in a.pred.get(t[1], ())):
        return all(direct(a, o, d + 1) for o in a.g.phi_ops(n))
    return False


def checked(a, b, facts):
    """the checked_* calls known to have succeeded at block b"""
    memo = a.__dict__.setdefault("_checked", {})
    if b not in memo:
        out = []
        for q, e in a.events.items():
            if e["last"] in ("unwrap", "expect", "ok_or", "ok_or_else", "branch") and e["snaps"] and q != b and a.dominates(q, b) and e["last"] in ("unwrap", "expect"):
                out.append(a.strip(e["snaps"][0]))
        for cond, w in facts:
            t = a.n[cond]
            if t[0] == "discr" and w == 1:
                out.append(a.strip(t[1]))
            if t[0] == "call" and t[2].endswith("is_some") and w == 1 and t[3]:
                out.append(a.strip(t[3][0]))
        memo[b] = [x for x in out if a.n[x][0] == "call" and a.n[x][2].split("::")[-1].startswith("checked_")]
    return memo[b]


def interval(a, n, b, ty, facts=None, d=0):
    """bounds of an integer at block b, from types, constants and dominating comparisons"""
    if facts is None:
        facts = a.facts(b)
    top = INT.get(ty, (-2 ** 127, 2 ** 128))
    v = a.g.cval(n)
    if isinstance(v, int):
        return (v, v)
    t = a.n[n]
    r = top
    if d < 12:
        if t[0] == "cast":
            x = interval(a, t[3], b, t[1], facts, d + 1)
            if top[0] <= x[0] and x[1] <= top[1]:
                r = x
        elif t[0] == "op" and t[1] in ("Add", "Sub", "Mul", "BitAnd", "Rem", "Div", "Shr", "Shl"):
            x, y = interval(a, t[3], b, t[2], facts, d + 1), interval(a, t[4], b, t[2] if t[1] not in ("Shl", "Shr") else "u128", facts, d + 1)
            z = None
            if t[1] == "Add":
                z = (x[0] + y[0], x[1] + y[1])
            elif t[1] == "Sub":
                z = (x[0] - y[1], x[1] - y[0])
            elif t[1] == "Mul" and x[0] >= 0 and y[0] >= 0:
                z = (x[0] * y[0], x[1] * y[1])
            elif t[1] == "BitAnd" and x[0] >= 0 and y[0] >= 0:
                z = (0, min(x[1], y[1]))
            elif t[1] == "Rem" and x[0] >= 0 and y[0] > 0:
                z = (0, y[1] - 1)
            elif t[1] == "Div" and x[0] >= 0 and y[0] > 0:
                z = (x[0] // y[1], x[1] // y[0])
            elif t[1] == "Shr" and x[0] >= 0 and 0 <= y[0] and y[1] < 128:
                z = (x[0] >> y[1], x[1] >> y[0])
            elif t[1] == "Shl" and x[0] >= 0 and 0 <= y[0] and y[1] < 128:
                z = (x[0] << y[0], x[1] << y[1])
            if z and top[0] <= z[0] and z[1] <= top[1]:
                r = z
        elif t[0] == "phi" and not any(a.dominates(t[1], p) for p in a.pred.get(t[1], ())):
            xs = [interval(a, o, b, ty, facts, d + 1) for o in a.g.phi_ops(n)]
            if xs:
                r = (min(x[0] for x in xs), max(x[1] for x in xs))
        elif t[0] == "call" and t[2].split("::")[-1] in ("min", "max", "clamp") and len(t[3]) >= 2:
            xs = [interval(a, o, b, ty, facts, d + 1) for o in t[3][:2]]
            f = min if t[2].endswith("min") else max
            if not t[2].endswith("clamp"):
                r = (f(x[0] for x in xs), f(x[1] for x in xs))
        elif t[0] == "call" and t[2].split("::")[-1] in ("into", "from") and t[3]:
            m = re.match(r".*", "")
            r = interval(a, t[3][0], b, fieldty(a, t[3][0]) or ty, facts, d + 1)
    lo, hi = max(r[0], top[0]), min(r[1], top[1])
    u = a.uncast(n)
    for q in checked(a, b, facts):
        m, args = a.n[q][2].split("::")[-1], a.n[q][3]
        if len(args) < 2 or a.uncast(args[0]) != u and a.uncast(args[1]) != u:
            continue
        ct = a.n[q][2].split("::")[-2] if a.n[q][2].count("::") else ""
        ct = ct if ct in INT else re.sub(r".*<impl (\w+)>.*", r"\1", a.n[q][2])
        cm = INT.get(ct, top)
        first = a.uncast(args[0]) == u
        k = a.g.cval(args[1] if first else args[0])
        if m == "checked_shl" and not first or m == "checked_shr" and not first:
            hi = min(hi, (cm[1] - cm[0]).bit_length() - 1)
        elif not isinstance(k, int):
            continue
        elif m == "checked_add" and k > 0:
            hi = min(hi, cm[1] - k)
        elif m == "checked_mul" and k > 0:
            hi = min(hi, cm[1] // k)
        elif m == "checked_sub" and first:
            lo = max(lo, cm[0] + k)
        elif m == "checked_sub":
            hi = min(hi, k - cm[0])
        elif m == "checked_pow" and not first and k >= 2:
            j = 0
            while k ** (j + 1) <= cm[1]:
                j += 1
            hi = min(hi, j)
    for cond, w in facts:
        c = a.n[cond]
        if c[0] == "op" and c[1] in ("Lt", "Le", "Eq", "Ne") and w in (0, 1):
            for x, y, side in ((c[3], c[4], 0), (c[4], c[3], 1)):
                if x != n and a.uncast(x) != u:
                    continue
                k = a.g.cval(y)
                if not isinstance(k, int):
                    continue
                op = c[1]
                if op == "Eq" and w or op == "Ne" and not w:
                    lo, hi = max(lo, k), min(hi, k)
                elif op == "Eq" or op == "Ne":
                    lo = lo + 1 if lo == k else lo
                    hi = hi - 1 if hi == k else hi
                else:
                    # side 0: x op k, side 1: k op x
                    if side == 0:
                        if w:
                            hi = min(hi, k - 1 if op == "Lt" else k)
                        else:
                            lo = max(lo, k if op == "Lt" else k + 1)
                    else:
                        if w:
                            lo = max(lo, k + 1 if op == "Lt" else k)
                        else:
                            hi = min(hi, k if op == "Lt" else k - 1)
        elif c == t and isinstance(w, int):
            lo, hi = w, w
        elif cond == n and isinstance(w, tuple) and w[0] == "not":
            while lo in w[1]:
                lo += 1
        elif cond == n and isinstance(w, int):
            lo, hi = w, w
    return (lo, hi) if lo <= hi else (lo, lo)


def fieldty(a, n):
    t = a.n[n]
    if t[0] == "op":
        return t[2]
    if t[0] == "cast":
        return t[2]
    if t[0] == "const":
        return t[1]
    return getattr(a, "_ft", {}).get(t[2][2]) if t[0] == "proj" and len(t[2]) > 2 else None


def inrange(op, ty, ix, iy):
    """does the exact result fit the type for all operands in the intervals? None if unknown"""
    lo, hi = INT[ty]
    if op in ("shl", "shr"):
        return 0 <= iy[0] and iy[1] < (hi - lo).bit_length()
    if op == "add":
        z = (ix[0] + iy[0], ix[1] + iy[1])
    elif op == "sub":
        z = (ix[0] - iy[1], ix[1] - iy[0])
    elif op == "mul":
        z = (min(p * q for p in ix for q in iy), max(p * q for p in ix for q in iy))
    elif op == "pow":
        if iy[1] > 200 and ix[1] > 1:
            return False
        z = (0, max(abs(ix[0]), abs(ix[1])) ** min(iy[1], 200))
    else:
        return None
    return lo <= z[0] and z[1] <= hi


HINTS = {"with_capacity", "reserve", "reserve_exact", "with_capacity_in", "try_reserve", "shrink_to"}


PURE = {"len", "is_empty", "min", "max", "fill", "iter", "iter_mut", "next", "resize", "copy_from_slice", "clone_from_slice", "take", "repeat", "collect",
        "skip", "rev", "enumerate", "deref", "deref_mut"}      # they have no effect but on what they return and on the memory they are given
PASS = FIRSTARG | {"as_mut_ptr", "into_boxed_slice", "into_iter"}
ELEMS = PASS | PURE - {"len", "is_empty", "min", "max"}


def hint_only(a, v, zero=True):
    """does the value only decide how much memory is set aside in advance (more than that is refused by the bounds checks), or what is logged?"""
    for b in a.reached:
        e = a.events.get(b)
        if e is not None and not a.islog(e) and e["last"] not in HINTS and e["last"] not in PASS and e["last"] not in PURE:
            for i, x in enumerate(e["snaps"]):
                if e["last"] == "from_elem" and i == 1 or re.search(r"(^|::)(f64|f32|num|usize|u64|u32|u8)::", e["name"]):
                    continue
                if v in plaindeps(a, x, i == 0 and e["last"] in ("index", "index_mut", "set_len", "truncate", "get_unchecked", "get_unchecked_mut")):
                    return False
        if b in a.g.cond and a.flat.blocks[b].t["k"] != "assert" and v in plaindeps(a, a.g.cond[b]):
            c = a.n[a.g.cond[b]]
            if length_check(a, b, c, v):
                continue
            if not (zero and c[0] == "op" and (a.g.cval(c[3]) == 0 or a.g.cval(c[4]) == 0)):
                if not logonly(a, b):
                    return False
    return True


def length_check(a, b, c, v):
    """does the condition only refuse a position that is not below the length of a collection, or compare one that is known to be?"""
    from p_struct import below_len, vroot
    if c[0] != "op" or c[1] not in ("Lt", "Le") or len(a.succ[b]) != 2:
        return False
    for x, y in ((c[3], c[4]), (c[4], c[3])):
        ln = a.n[a.strip(y)]
        if ln[0] != "len" or v in plaindeps(a, x):
            continue
        if below_len(a, x, 0, vroot(a, ln[1]), b):
            return True
        # the branch taken for a position that is too large
        t = a.flat.blocks[b].t
        zero = [z.id for k, z in t["ts"] if k == 0]
        bad = zero[0] if (y == c[4]) and zero else t["ow"].id
        if bad not in a.normal:
            return True
    return False


def minimum(a, ops, b):
    """of a number and the length it is limited to, the number if it is known to be at most that"""
    from p_struct import below_len, vroot
    return [o for o, y in (ops, ops[::-1]) if a.n[a.strip(y)][0] == "len" and below_len(a, o, 0, vroot(a, a.n[a.strip(y)][1]), b)]


def fits(a, vec, n, b):
    from p_struct import below_len, vroot
    return below_len(a, n, 0, vroot(a, vec), b)


def logonly(a, b):
    return bool(a.events.get(b)) and a.islog(a.events[b])


def plaindeps(a, n, elem=False):
    """dependences other than through the capacity of a collection, or through its length where only its elements matter"""
    seen, todo = set(), [(n, elem)]
    while todo:
        p = todo.pop()
        if p not in seen:
            seen.add(p)
            todo += plainops(a, *p)
    return {x for x, _ in seen}


def plainops(a, x, el):
    todo = []
    t = a.n[x]
    k = t[0]
    if k == "call":
        last = t[2].split("::")[-1]
        if last in HINTS:
            return todo
        if last == "from_elem" and el:
            todo.append((t[3][0], False))
            return todo
        if last == "take" and el and t[2].startswith(("std::iter::", "core::iter::")):
            todo.append((t[3][0], True))
            return todo
        if last == "min" and len(t[3]) == 2:
            o = minimum(a, t[3], t[1])
            if o:
                todo.append((o[0], False))
                return todo
        todo += [(o, el and i == 0 and last in ELEMS) for i, o in enumerate(t[3])]
    elif k == "eff":
        c = a.n[t[1]]
        last = c[2].split("::")[-1] if c[0] == "call" else ""
        if last in ("set_len", "truncate") or last == "resize" and len(c[3]) > 1 and fits(a, t[3], c[3][1], c[1]):
            todo.append((t[3], True))
            todo += [(o, False) for o in c[3][1:]]
        elif last in HINTS:
            todo.append((t[3], el))
        else:
            todo.append((t[3], el))
            todo += [(o, el and (i == 0 or last in ELEMS and last != "resize")) for i, o in enumerate(c[3])] if c[0] == "call" else [(t[1], False)]
    elif k == "proj" and t[2][0] == "i":
        todo += [(t[1], True), (t[2][1], False)]
    elif k == "proj" and el:
        todo.append((t[1], True))
    elif k == "op" and t[1] == "min" and len(t) == 5:
        at = [b for b in a.reached if a.events.get(b) and a.events[b].get("node") == x]
        o = minimum(a, t[3:5], at[0]) if at else []
        todo += [(y, False) for y in o or t[3:5]]
    elif k in ("store", "wstore"):
        todo += [(t[1], el), (t[2], k == "wstore"), (t[3], False)]
    elif k in ("subref", "slice") and len(t) > 2 and isinstance(t[2], int):
        todo += [(t[1], True if cutout(a, t[2]) else el), (t[2], False)]
    elif k == "load":
        todo += [(t[1], True)] + [(o, False) for o in t[2]]
    elif k == "len":
        todo.append((t[1], False))
    elif k == "with" and not el and partly(a, t[1]):
        todo += [(t[1], False)] + [(o, True) for o in t[2]]
    elif k in ("at", "with", "phi"):
        todo += [(o, el) for o in a.ops(x)]
    else:
        todo += [(o, False) for o in a.ops(x)]
    return todo


def cutout(a, r):
    r = a.n[r]
    return r[0] == "agg" and re.search(r"ops::(range::)?(Range|RangeTo|RangeToInclusive)$", r[1][1]) or "RangeInclusive" in str(r)


def partly(a, x):
    """an iterator over a part of a collection whose end is given"""
    seen = set()
    while x not in seen:
        seen.add(x)
        t = a.n[x]
        if t[0] in ("subref", "slice") and len(t) > 2 and isinstance(t[2], int):
            return bool(cutout(a, t[2]))
        if t[0] in ("at", "with"):
            x = t[1]
        elif t[0] == "eff":
            x = t[3]
        elif t[0] == "call" and t[3] and t[2].split("::")[-1] in ELEMS:
            x = t[3][0]
        elif t[0] == "phi":
            o = [y for y in a.g.phi_ops(x) if y != x and a.n[y][0] != "eff"]
            if len(o) != 1:
                return False
            x = o[0]
    return False


@prop("C27", "interval analysis of all arithmetic on option values in the release build (where it wraps around silently): every addition, subtraction, "
      "multiplication and shift whose operands come directly from the command line stays in range for every value of the option that the dominating checks "
      "let through, unless the result is a mere capacity hint")
def c27(c):
    n = 0
    for prof in c.profiles():
        runs = [(tool, {}) for tool in c.tools(prof) if tool != "word"]
        runs += [("word", {"name": ("variant", adt, idx, v, 0)}) for v, (idx, adt) in variants_of(c, prof).items()] or [("word", {})]
        for tool, seeds in runs:
            a = c.A(tool, seeds, profile=prof)
            a._ft = argfields(c, tool)
            for b in sorted(a.reached):
                if b not in a.normal:
                    continue
                blk = a.flat.blocks[b]
                e = a.events.get(b)
                if e is not None and a.islog(e):
                    continue
                if e is not None and e["last"].startswith(("wrapping_", "overflowing_", "saturating_", "unchecked_")) and len(e["snaps"]) > 1 and "node" in e:
                    x, y = e["snaps"][:2]
                    kind = e["last"].split("_", 1)[1]
                    ct = re.findall(r"\b([iu](?:8|16|32|64|128|size))\b", e["name"])
                    ct = ct[0] if ct else "usize"
                    if (direct(a, y) and fieldset(a, y) if kind in ("shl", "shr") else direct(a, x) and direct(a, y) and (fieldset(a, x) or fieldset(a, y))) and ct in INT:
                        n += 1
                        c.ok(1, "arithmetic on option values")
                        fs = a.facts(b)
                        good = inrange(kind, ct, interval(a, x, b, ct, fs), interval(a, y, b, fieldty(a, y) or "u32", fs))
                        if good is False and not hint_only(a, e["node"]):
                            c.violate("%s|%s|%s" % (tool, a.fn(b), e["last"]), a.where(b), "%s: %s on %s silently replaces the value for some values of the option"
                                      % (tool, e["last"], " ".join(sorted(fieldset(a, x) | fieldset(a, y)))))
                for ev in a.g.trace.get(b, ()):
                    if ev[0] == "cast":
                        t = a.n[ev[1]]
                        if t[0] == "cast" and t[1] in INT and t[2] in INT and (INT[t[1]][1] > INT[t[2]][1] or INT[t[1]][0] < INT[t[2]][0]) and \
                                direct(a, t[3]) and fieldset(a, t[3]):
                            n += 1
                            c.ok(1, "conversions of option values")
                            r = interval(a, t[3], b, t[1])
                            if not (INT[t[2]][0] <= r[0] and r[1] <= INT[t[2]][1]) and not hint_only(a, ev[1], False):
                                c.violate("%s|%s|cast" % (tool, a.fn(b)), a.where(b), "%s: %s is cut down to %s, although it can be as large as %d"
                                          % (tool, " ".join(sorted(fieldset(a, t[3]))), t[2], r[1]))
                        continue
                    if ev[0] != "bin" or ev[3] not in ("Add", "Sub", "Mul", "Shl", "Shr"):
                        continue
                    _, v, s, op, ty, x, y = ev
                    if ty not in INT or a.g.cval(v) is not None:
                        continue
                    if op in ("Shl", "Shr"):
                        if not direct(a, y) or not fieldset(a, y):
                            continue
                    elif not (direct(a, x) and direct(a, y) and (fieldset(a, x) or fieldset(a, y))):
                        continue
                    n += 1
                    c.ok(1, "arithmetic on option values")
                    fs = a.facts(b)
                    y0 = y
                    while op in ("Shl", "Shr") and a.n[y0][0] in ("cast", "op"):   # a mask on the shift amount wraps it around
                        if a.n[y0][0] == "op" and a.n[y0][1] in ("BitAnd", "Rem") and a.g.cval(a.n[y0][4]) is not None:
                            y = a.n[y0][3]
                        elif a.n[y0][0] == "op" and a.n[y0][1] == "BitAnd" and a.g.cval(a.n[y0][3]) is not None:
                            y = a.n[y0][4]
                        y0 = a.n[y0][3] if a.n[y0][0] == "cast" else y if y != y0 and a.n[y0][1] in ("BitAnd", "Rem") else None
                        if y0 is None:
                            break
                    iy = interval(a, y, b, fieldty(a, y) or (ty if op not in ("Shl", "Shr") else "u128"), fs)
                    ix = interval(a, x, b, ty, fs)
                    good = inrange(op.lower(), ty, ix, iy)
                    c.sample("%s: %s %s at %s, operands in %s and %s" % (tool, ty, op, a.where(b), ix, iy))
                    if not good and not hint_only(a, v):
                        c.violate("%s|%s|%s" % (tool, a.fn(b), op), a.where(b), "%s: %s %s wraps around for some values of %s (operands in %s and %s)"
                                  % (tool, ty, op, " ".join(sorted(fieldset(a, x) | fieldset(a, y))), ix, iy))
    c.floor("arithmetic operations on option values", n, 3)
