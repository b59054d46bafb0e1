"""C22: the factors of count_z and count_lexparse tile the text"""
import re

from an import merge_lits
from paths import addlin, element, feasible, lin, narrows, walk, ways
from props import *
from reg import prop

HARM = {"pop", "truncate", "remove", "swap_remove", "clear", "dedup", "dedup_by", "dedup_by_key", "retain", "retain_mut", "drain", "split_off", "sort",
        "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "reverse", "swap", "rotate_left", "rotate_right", "fill",
        "last_mut", "first_mut", "iter_mut", "get_mut", "get_unchecked_mut", "split_last_mut", "split_first_mut", "index_mut", "pop_if", "set_len"}
CUTS = {"skip", "take", "filter", "rev", "step_by", "skip_while", "take_while", "chain", "filter_map", "map_while", "scan", "flat_map", "chunks", "windows",
        "split_at", "split_first", "split_last", "get", "first", "last", "nth", "chunks_exact", "rchunks", "dedup", "cycle"}


def body_of(a, h):
    """the blocks of the loop with head h"""
    out, todo = {h}, [p for p in a.pred.get(h, ()) if a.dominates(h, p)]
    while todo:
        b = todo.pop()
        if b not in out:
            out.add(b)
            todo += a.pred.get(b, ())
    return out


def loop_of(a, blocks):
    """(head, blocks) of the innermost loop that contains all of them"""
    best = None
    for h in a.g.heads:
        l = body_of(a, h)
        if len(l) > 1 and all(b in l for b in blocks) and (best is None or len(l) < len(best[1])):
            best = (h, l)
    return best


def loop_paths(c, a, h, region, limit=6000):
    """all ways once round the loop, and out of it"""
    ex = c.explorer(a, end_extras(a))
    stops = {h} | {s for b in region for s in a.succ[b] if s not in region}
    out = []
    for s, e in ex.steps(h, {}):
        ps = walk(a, ex, s, stops, e, limit, pre=(h,))
        if ps is None:
            return None
        out += [p for p in ps if feasible(p)]
    return out


def extreme(a, k):
    """(is it a minimum, operands) of a minimum or maximum"""
    t = a.n[k] if isinstance(k, int) else ("",)
    if t[0] == "call" and t[2].split("::")[-1] in ("max", "min") and len(t[3]) == 2:
        return t[2].endswith("min"), t[3]
    if t[0] == "op" and t[1] in ("max", "min"):
        return t[1] == "min", t[3:5]
    return None


def decided(a, f, k):
    """the facts for each operand of a minimum or maximum being the one taken"""
    low, (u, v) = extreme(a, k)
    out = []
    u, v = lin(a, u), lin(a, v)
    for p, q in ((u, v), (v, u)):
        g = f.copy()
        g.rel(addlin(p, q, -1) if low else addlin(q, p, -1), "<=" if p is u else "<")
        g.rel(addlin(({k: 1}, 0), p, -1), "==")
        if not g.bad:
            out.append(g)
    return out


def cases(a, f, x, d=0):
    """facts in which the minima and maxima x is made of are decided: [(facts, value)]"""
    x = f.simp(x)
    for k in x[0]:
        if extreme(a, k) and d < 4:
            return [y for g in decided(a, f, k) for y in cases(a, g, x, d + 1)]
    return [(f, x)]


def sharp(a, fs):
    """the facts with all minima and maxima in the conditions decided"""
    out = []
    for f in fs:
        todo = [(f, ())]
        while todo:
            f, done = todo.pop()
            k = next((k for x, op in f.raw for k in x[0] if k not in done and extreme(a, k)), None)
            if k is None or len(done) > 4:
                out.append(f)
            else:
                todo += [(g, done + (k,)) for g in decided(a, f, k)]
    return out


def facts_of(a, p):
    return sharp(a, ways(a, [(cnd, v) for cnd, v, b in p.conds()]))


def text_byte(a, x, byte=False):
    """(text, position) if x is a byte of a text, None if it is something else, "?" if that is not known"""
    t = a.n[x]
    while t[0] in ("at", "with", "cast", "load"):
        if t[0] == "cast":
            if narrows(t) or t[1] not in ("u8", "u16", "u32", "u64", "usize"):
                return None
            byte = byte or t[1] == "u8"
        x = t[3] if t[0] == "cast" else t[1]
        t = a.n[x]
    if t[0] == "call" and t[2].split("::")[-1] in ("from", "into", "clone", "as_", "copied", "cloned", "unwrap", "expect") and t[3]:
        e = a.events.get(t[1])
        return text_byte(a, t[3][0], byte or bool(e) and e["atys"][0] == "u8")
    if t[0] == "proj" and t[2][:2] == ("f", 0) and a.n[t[1]][0] == "proj" and a.n[t[1]][2][:2] == ("v", 1):
        return element(a, a.strip(a.n[t[1]][1])) or "?"
    if t[0] == "proj" and t[2][0] == "i":
        return (a.strip(t[1]), t[2][1]) if byte else None
    return None if t[0] in ("const", "op", "proj", "len") else "?"


def tiling(c, a, tool, ety, names):
    """[] or what is wrong with the loop that finds the factors; None: not understood"""
    pushes = {e["block"]: e for e in a.evs(log=True) if e["last"] == "push" and len(e["atys"]) == 2 and e["atys"][1] == ety}
    L = loop_of(a, pushes)
    if not L:
        return None
    h, region = L
    ps = loop_paths(c, a, h, region)
    if ps is None:
        return None
    nums = [(b, l) for (b, l), ins in a.g.phis.items() if b == h and a.flat.local_ty[l] in ("usize", "u64", "u32", "i64", "isize")]
    best = None
    for key in nums:
        ins = a.g.phis[key]
        start = [o for p, o in ins.items() if p not in region]
        if all(a.strip(o) == a.strip(x) for p, o in ins.items() if p in region for x in start):
            continue
        if not all(isinstance(a.g.cval(o), int) for o in start):
            continue
        i = next((n for n in range(len(a.n)) if a.n[n][:3] == ("phi", h, key[1])), None)
        if i is None or all(a.strip(o) == i for p, o in ins.items() if p in region):
            continue
        for li in names:
            bad = position_ok(c, a, tool, pushes, h, region, ps, key, i, start, li)
            if best is None or len(bad) < len(best):
                best = bad
            if not bad:
                return []
    return best


def position_ok(c, a, tool, pushes, h, region, ps, key, i, start, li):
    bad = []

    def wrong(b, k, what):
        if (k, what) not in [(x[1], x[2]) for x in bad]:
            bad.append((b, k, what))
    if any(a.g.cval(o) != 0 for o in start):
        wrong(h, "start", "the first factor does not start at position 0 of the text")
    L = ({i: 1}, 0)
    ins = a.g.phis[key]
    texts = set()
    for p, f in [(p, f) for p in ps for f in facts_of(a, p)]:
        last = p.blocks[-1]
        got = [(j, b) for j, b in enumerate(p.blocks[:-1] if last == h else p.blocks) if b in pushes and j > 0]
        if last in a.term and a.term[last][0] not in ("ret", "exit"):
            continue
        if last != h:
            if got:
                wrong(got[0][1], "exit", "the loop can end right after a factor, whether or not the text is covered")
                continue
            # the way out: i < len(text) must be impossible
            ls = {k for cnd, v, b in p.conds() for k in lens(a, cnd)}
            done = False
            for k in ls:
                if f.implies(addlin(({k: 1}, 0), L, -1)):
                    done = True
                    texts.add(a.strip(a.n[k][1]))
            if not done:
                wrong(p.blocks[-2], "exit", "the loop can end before the position reaches the end of the text")
            continue
        o = ins.get(p.blocks[-2])
        if o is None:
            continue
        adv = addlin(lin(a, p.resolve(o, len(p.blocks) - 2)), L, -1)
        todo = [(f, ({}, 0), list(got))]
        while todo:
            f, span, rest = todo.pop()
            if not rest:
                for g, x in cases(a, f, addlin(adv, span, -1)):
                    if g.zero(x) is not True:
                        wrong(got[-1][1] if got else h, "step", "the position advances by another number than the factors pushed cover"
                              if got else "the position can advance without a factor")
                if not got:
                    wrong(h, "none", "a round of the loop can push no factor")
                continue
            (j, b), rest = rest[0], rest[1:]
            e = pushes[b]
            t = a.n[a.strip(p.resolve(e["snaps"][1], j))]
            if t[0] != "agg" or len(t[2]) != 2:
                wrong(b, "factor", "the factor pushed is not made of a position and a length")
                continue
            for f, ln in cases(a, f, lin(a, t[2][li])):
                z, g = f.copy(), f.copy()
                z.rel(ln, "==")
                g.rel(ln, "!=")
                if not z.bad:
                    q = text_byte(a, t[2][1 - li])
                    if q == "?":
                        c.sample("%s: the letter of a literal was not understood" % tool)
                    elif not q:
                        wrong(b, "literal", "a factor of length 0 does not carry a byte of the text")
                    elif z.equal(lin(a, q[1]), addlin(L, span)) is not True:
                        wrong(b, "literal", "a factor of length 0 does not carry the byte at its position")
                    todo.append((z, addlin(span, ({}, 1)), rest))
                if not g.bad:
                    todo.append((g, addlin(span, ln), rest))
    return bad


def lens(a, n, seen=None):
    """lengths a condition compares"""
    seen = set() if seen is None else seen
    if n in seen:
        return set()
    seen.add(n)
    t = a.n[n]
    if t[0] == "len":
        return {n}
    if t[0] == "discr" and element(a, a.strip(t[1])):
        return {a.g.mklen(element(a, a.strip(t[1]))[0])}
    if t[0] in ("op", "not", "flip", "cast"):
        return set().union(*(lens(a, x, seen) for x in t[1:] if isinstance(x, int) and not isinstance(x, bool) and 0 <= x < len(a.n)))
    return set()


@prop("C22", "inductive proof over the loop that finds the factors, from the MIR of all feasible paths once round it: the position starts at 0, "
      "advances by exactly what the factors pushed on the path cover (their length, 1 for a literal, which carries the byte at the position), and "
      "the loop is left only when it has reached the length of the text; type-based search for operations that change the list of factors "
      "afterwards; the -o loop writes every factor once, as (position,length)")
def c22(c):
    n = 0
    for prof in c.profiles():
        for tool in ("count_z", "count_lexparse", "enumerate_lexparse"):
            if tool not in c.tools(prof):
                continue
            a = c.A(tool, profile=prof)
            n += c22_tool(c, a, tool)
    c.floor("factor loops", n, 2)


def factor_type(a):
    """the type of the elements pushed that consist of two numbers: (type, field names)"""
    out = {}
    for e in a.evs(log=True):
        if e["last"] == "push" and len(e["atys"]) == 2 and len(e["snaps"]) == 2:
            for x in {e["snaps"][1]} | set(a.g.phi_ops(e["snaps"][1]) if a.n[e["snaps"][1]][0] == "phi" else ()):
                t = a.n[a.strip(x)]
                if t[0] == "agg" and len(t[2]) == 2 and t[1][0] in ("adt", "tuple") and re.match(r"^(\w+::)*[A-Z]\w*$|^\(u(32|64|size), u(32|64|size)\)$", e["atys"][1]):
                    out[e["atys"][1]] = t[1][4] if t[1][0] == "adt" else ()
    return out


def c22_tool(c, a, tool):
    done = 0
    for ety, fields in sorted(factor_type(a).items()):
        names = [k for k, x in enumerate(fields) if x in ("len", "length")] or [1, 0]
        bad = tiling(c, a, tool, ety, names)
        done = 1
        if bad is None:
            c.sample("%s: the loop that finds the factors was not understood" % tool)
            c.counts["loops not understood"] = c.counts.get("loops not understood", 0) + 1
            continue
        c.ok(1, "factor loops proved")
        for b, k, what in bad:
            c.violate("%s|%s|%s" % (tool, a.fn(b), k), a.where(b), "%s: %s" % (tool, what))
        # nothing changes the list afterwards
        E = re.escape(ety)
        for e in a.evs(log=True):
            if not e["atys"]:
                continue
            if e["last"] in HARM and re.match(r"&mut (std::vec::Vec<%s>|\[%s\])$" % (E, E), e["atys"][0]):
                c.violate("%s|%s|%s" % (tool, a.fn(e["block"]), e["last"]), a.where(e["block"]),
                          "%s: the list of factors is changed by %s" % (tool, e["last"]))
        counted(c, a, tool, ety)
        c22_out(c, a, tool, ety, names[0])
    return done


def c22_out(c, a, tool, ety, li):
    """the loop over the factors that writes them"""
    E = re.escape(ety)
    nx = [e for e in a.evs() if e["last"] == "next" and e["atys"] and re.search(r"\b%s\b" % E.split("::")[-1], e["atys"][0])]
    for e in a.evs():
        if e["last"] in CUTS and e["atys"] and not a.islog(e) and re.search(r"(Iter|IntoIter|Vec)<('\w+, )?%s>|\[%s\]" % (E, E), e["atys"][0]):
            c.violate("%s|%s|%s" % (tool, a.fn(e["block"]), e["last"]), a.where(e["block"]), "%s: %s does not pass on every factor" % (tool, e["last"]))
        if e["last"] == "index" and len(e["atys"]) == 2 and "Range" in e["atys"][1] and re.search(r"(Vec<%s>|\[%s\])$" % (E, E), e["atys"][0]):
            c.violate("%s|%s|%s" % (tool, a.fn(e["block"]), e["last"]), a.where(e["block"]), "%s: only a part of the factors is used" % tool)
    for e in nx:
        if e["dty"].count(ety) != 1:
            continue
        h, out = e["block"], set()
        ps = loop_paths(c, a, h, body_of(a, h))
        early = []
        for p in ps or ():
            if not facts_of(a, p):
                continue
            if p.blocks[-1] != h:
                if p.blocks[-1] in a.term and a.term[p.blocks[-1]][0] not in ("ret", "exit"):
                    continue
                cs = [(given(a, cnd), v) for cnd, v, b in p.conds()]
                if (e["node"], 1) in cs and not any(v == 1 and fails(a, x) for x, v in cs):
                    early.append(p.blocks[-2])
                continue
            w = written(a, p)
            if w is not None:
                out.add((tuple(w), p.blocks[-2]))
        if not any(w for w, b in out):
            continue
        for b in early:
            c.violate("%s|%s|early" % (tool, a.fn(h)), a.where(b), "%s: the loop that writes the factors can end before the last one" % tool)
        for w, b in sorted(out, key=str):
            c.ok(1, "rounds of the output loop")
            said = factor_parts(a, w, li, ety)
            if said is None:
                continue
            if said != "(pos,len)":
                c.violate("%s|%s|out" % (tool, a.fn(e["block"])), a.where(b), "%s: what is written for a factor is %s, not (pos,len)" % (tool, said or "nothing"))
    # what is formatted in closures
    for e in a.evs():
        if e["last"] in ("new_v1", "new", "new_v1_formatted") and "Arguments" in e["name"]:
            parts = a.fmt(e["node"])
            if not parts:
                continue
            said = factor_parts(a, parts, li, ety)
            if said and "pos" in said and "len" in said:
                c.ok(1, "formats of a factor")
                if said.strip("\n") != "(pos,len)":
                    c.violate("%s|%s|format" % (tool, a.fn(e["block"])), a.where(e["block"]), "%s: a factor is written as %s, not as (pos,len)" % (tool, said))


def given(a, cnd):
    """the result a condition looks into"""
    t = a.n[cnd]
    return a.strip(t[1]) if t[0] == "discr" else None


def fails(a, x):
    """x is the result of something that can fail with an I/O error"""
    t = a.n[x] if x is not None else ("",)
    for _ in range(4):
        if t[0] == "call" and t[2].split("::")[-1] in ("branch", "map_err", "map") and t[3]:
            t = a.n[a.strip(t[3][0])]
    e = a.events.get(t[1]) if t[0] == "call" else None
    return bool(e) and "io::Error" in e["dty"]


def counted(c, a, tool, ety):
    """the number reported is the length of the list of factors"""
    for e in a.evs():
        if e["last"] != "_print":
            continue
        parts = a.fmt(e["args"][-1]) or []
        for q, r in zip(parts, parts[1:]):
            if q[0] != "lit" or not q[1].endswith((b" factors=", b" z=") if isinstance(q[1], bytes) else " factors=") or r[0] != "arg":
                continue
            t = a.n[a.uncast(r[1])]
            if t[0] != "len":
                continue
            c.ok(1, "numbers of factors reported")
            x = a.strip(t[1])
            for _ in range(20):
                if a.n[x][0] == "eff":
                    x = a.strip(a.n[x][3])
            ty = a.flat.local_ty[a.n[x][2]] if a.n[x][0] == "phi" else None
            if ty and ety not in ty and ty.startswith("std::vec::Vec<"):
                c.violate("%s|%s|count" % (tool, a.fn(e["block"])), a.where(e["block"]), "%s: the number of factors printed is the length of another list" % tool)


def written(a, p):
    """the parts of all texts written on a path, None if not understood"""
    out = []
    for b in p.blocks[1:-1]:
        e = a.events.get(b)
        if e is None or e.get("modeled") or a.islog(e):
            continue
        if not ("io::Write" in e["name"] or "io::Write" in e["fun"].get("trait", "") or e["last"] in ("_print", "push_str")):
            continue
        if e["last"] in ("flush", "by_ref"):
            continue
        x = e["snaps"][-1]
        parts = a.fmt(x) if e["last"] in ("write_fmt", "_print") else a.strparts(x)
        if parts is None:
            return None
        out += parts
    return merge_lits(out)


def factor_parts(a, parts, li, ety):
    """the parts spelled with pos and len for the fields of the factor"""
    out = ""
    for q in parts:
        if q[0] == "lit":
            out += q[1].decode("utf8", "replace") if isinstance(q[1], bytes) else q[1]
            continue
        x = a.strip(q[1])
        t = a.n[x]
        while t[0] == "cast" and not narrows(t):
            x = a.strip(t[3])
            t = a.n[x]
        if t[0] == "proj" and t[2][0] == "f" and t[2][1] in (0, 1) and (a.n[t[1]][0] != "proj" or a.n[t[1]][2][0] != "v"):
            out += ("pos", "len")[t[2][1] == li] + ("" if q[2] == "display" else "?" + q[2])
        elif t[0] in ("cast", "op", "const", "len", "phi"):
            out += "a computed number"
        else:
            return None
    return out
