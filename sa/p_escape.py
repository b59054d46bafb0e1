"""C19: escape and its reversal as transducers"""
from common import *
from reg import prop
from paths import walk, lin
from p_struct import eof_value
from p_stream import Stream, data_value, CUR
from p_guard import fieldset

FROM, TO, ESC = "from_symbols", "to_symbols", "escape_symbol"


class Undecided(Exception):
    pass


def option(a, n):
    """the option whose value n is"""
    n = a.uncast(n)
    t = a.n[n]
    if t[0] == "load":
        return option(a, t[1])
    if t[0] == "proj" and len(t[2]) > 2 and a.n[t[1]][0] == "call" and a.g.is_parse(a.n[t[1]]):
        return t[2][2]
    if t[0] == "call" and t[2].split("::")[-1] in ("clone", "from", "into", "to_owned") and len(t[3]) == 1:
        return option(a, t[3][0])
    return None


def get_call(a, n):
    """(container, key) if n is the element that a lookup delivers, or the Option of it"""
    for _ in range(12):
        n = a.uncast(n)
        t = a.n[n]
        if t[0] == "load":
            n = t[1]
        elif t[0] == "proj" and t[2][0] in "vf":
            n = t[1]
        elif t[0] == "call" and t[2].split("::")[-1] in ("copied", "cloned", "unwrap", "expect") and t[3]:
            n = t[3][0]
        elif t[0] == "call" and t[2].split("::")[-1] in ("get", "index") and len(t[3]) == 2:
            return a.strip(t[3][0]), a.uncast(a.deref(a.strip(t[3][1])))
        else:
            return None
    return None


def contents(c, a, m):
    """what the map is made of: [(key option, value option, where)]"""
    out, seen, todo = [], set(), [a.strip(m)]
    while todo:
        n = a.strip(todo.pop())
        if n in seen:
            continue
        seen.add(n)
        t = a.n[n]
        if t[0] == "phi":
            todo += list(a.ops(n))
        elif t[0] == "eff":
            k = a.n[t[1]]
            last = k[2].split("::")[-1] if k[0] == "call" else ""
            if last == "insert" and len(k[3]) == 3:
                out.append(pair(c, a, k[3][1], k[3][2], k[1]))
                todo.append(t[3])
            elif last in ("get", "reserve", "len", "is_empty", "contains_key"):
                todo.append(t[3])
            else:
                raise Undecided("the map is changed by " + last)
        elif t[0] == "call":
            last = t[2].split("::")[-1]
            if last in ("new", "with_capacity", "default"):
                pass
            elif last in ("collect", "from_iter", "from"):
                z = a.strip(t[3][0])
                u = a.n[z]
                if u[0] == "call" and u[2].split("::")[-1] == "zip":
                    x, y = whole(a, u[3][0]), whole(a, u[3][1])
                    if x is None or y is None:
                        raise Undecided("the map is collected from something else than the lists of symbols")
                    out.append((x, y, t[1], None))
                else:
                    raise Undecided("the map is collected")
            else:
                raise Undecided("the map comes from " + last)
        else:
            raise Undecided("the map is a " + t[0])
    if not out:
        raise Undecided("nothing is put into the map")
    return out


def whole(a, n):
    """the option over all of whose elements an iterator goes"""
    for _ in range(10):
        n = a.strip(n)
        t = a.n[n]
        o = option(a, n)
        if o:
            return o
        if t[0] in ("agg", "at", "with") and len(t) > 2 and isinstance(t[2], tuple) and len(t[2]) == 1:
            n = t[2][0]
        elif t[0] == "call" and t[2].split("::")[-1] in ("iter", "into_iter", "copied", "cloned", "deref", "as_slice", "clone", "to_vec", "borrow", "as_ref") and t[3]:
            n = t[3][0]
        else:
            return None
    return None


def element(a, n):
    """(option, index node) of an element of one of the lists"""
    n = a.uncast(n)
    t = a.n[n]
    if t[0] == "load":
        return element(a, t[1])
    if t[0] == "proj" and t[2][0] == "i":
        o = option(a, t[1])
        return (o, a.uncast(t[2][1])) if o else None
    if t[0] == "call" and t[2].split("::")[-1] == "index" and len(t[3]) == 2:
        o = option(a, a.strip(t[3][0]))
        return (o, a.uncast(t[3][1])) if o else None
    if t[0] == "call" and t[2].split("::")[-1] in ("clone", "unwrap") and t[3]:
        return element(a, a.strip(t[3][0]))
    # an element delivered by a zip of both lists
    path = []
    while t[0] == "proj" and t[2][0] in "vf":
        path.append(t[2])
        n = a.strip(t[1])
        t = a.n[n]
    if t[0] == "call" and t[2].split("::")[-1] == "next" and path and path[0][0] == "f" and len(path) >= 3:
        z = a.strip(t[3][0])
        src = zipof(a, z)
        if src:
            o = whole(a, src[3][min(path[0][1], 1)])
            return (o, ("zip", n)) if o else None
    return None


def zipof(a, z):
    seen, todo = set(), [z]
    while todo:
        n = a.strip(todo.pop())
        if n in seen:
            continue
        seen.add(n)
        t = a.n[n]
        if t[0] == "call" and t[2].split("::")[-1] == "zip":
            return t
        if t[0] in ("phi", "eff", "ref"):
            todo += [t[3]] if t[0] == "eff" else list(a.ops(n))
        elif t[0] == "call" and t[2].split("::")[-1] == "into_iter":
            todo.append(t[3][0])
    return None


def pair(c, a, k, v, b):
    x, y = element(a, k), element(a, v)
    if x is None or y is None:
        raise Undecided("the entries of the map are not elements of the lists")
    return (x[0], y[0], b, (x[1], y[1]))


def coverage(c, a, b, idx):
    """does the loop insert all entries? a message otherwise"""
    if idx is None:
        return None
    if idx[0] != idx[1]:
        return "the entries pair different positions of the lists"
    i = idx[0]
    if isinstance(i, tuple):
        nx = i[1]
    else:
        nx = i
        d = 0
        while a.n[nx][0] == "proj" and d < 4:
            nx, d = a.strip(a.n[nx][1]), d + 1
    t = a.n[nx]
    if t[0] != "call" or t[2].split("::")[-1] != "next":
        raise Undecided("the index of the map's entries is not the counter of a for loop")
    if not isinstance(i, tuple):
        rg, seen, todo = None, set(), [t[3][0]]
        while todo:
            n = a.strip(todo.pop())
            if n in seen:
                continue
            seen.add(n)
            u = a.n[n]
            if u[0] == "agg" and "ops::Range" in str(u[1]):
                rg = u
            elif u[0] in ("phi", "ref"):
                todo += list(a.ops(n))
            elif u[0] == "eff":
                todo.append(u[3])
            elif u[0] == "call" and u[2].split("::")[-1] in ("into_iter", "rev", "by_ref"):
                todo.append(u[3][0])
            elif u[0] == "call":
                if u[2].split("::")[-1] in ("take", "skip", "step_by") and a.g.cval(u[3][1]) is not None:
                    return "not all of the symbols are put into the map"
                raise Undecided("the entries are chosen by " + u[2])
        if rg is None or len(rg[2]) != 2:
            raise Undecided("the index of the map's entries does not run over a range")
        lo, hi = a.g.cval(rg[2][0]), lin(a, rg[2][1])
        if lo is None:
            raise Undecided("the first index is not known")
        h = a.n[a.strip(rg[2][1])]
        if any(a.g.cval(x) is not None for x in (h[3] if h[0] == "call" and h[2].split("::")[-1] == "min" else h[3:5] if h[0] == "op" and h[1] in ("min", "Min") else a.ops(a.strip(rg[2][1])) if h[0] == "phi" else ())):
            return "not all of the symbols are put into the map"
        (k,) = hi[0] if len(hi[0]) == 1 else (None,)
        if k is None or a.n[k][0] != "len" and not (a.n[k][0] == "call" and a.n[k][2].endswith("::len")) or not fieldset(a, k) & {FROM, TO}:
            raise Undecided("the last index is not the length of the lists: " + a.g.show(rg[2][1], 4))
        if lo != 0 or hi != ({k: 1}, 0):
            return "not all of the symbols are put into the map"
    # no way round the insertion
    nb = t[1]
    for s in a.succ[nb]:
        if not a.reach_from(s).issuperset({nb}):
            continue
        ps = walk(a, c.explorer(a), s, {nb}, {}, pre=(nb,))
        if ps is None:
            raise Undecided("too many paths")
        for p in ps:
            if p.blocks[-1] == nb and b not in p.blocks:
                return "not all of the symbols are put into the map"
    return None


def path_facts(S, p, r):
    """(is the byte the escape symbol?, is it in the map?, the map, facts)"""
    a = S.a
    canon = S.canon(r)
    f = S.facts(p, canon)
    if f.bad:
        return None
    esc = next((n for n in range(len(a.n)) if option(a, n) == ESC and a.n[n][0] == "proj"), None)
    if esc is None:
        raise Undecided("the escape symbol is not looked at")
    e = f.equal(({CUR: 1}, 0), ({esc: 1}, 0))
    look, m, seen = None, None, set()
    rd = S.reads[r]["node"]
    for cn, v, b in p.conds():
        t = a.n[cn]
        if t[0] == "flip" and v in (0, 1):
            v, t = 1 - v, a.n[t[1]]
        if t[0] == "discr" and v in (0, 1):
            g = get_call(a, t[1])
            if g and S.isbyte(g[1], r):
                look, m = v == 1, g[0]
                seen.add(look)
                continue
        if t[0] == "call" and t[2].split("::")[-1] in ("is_some", "is_none") and v in (0, 1):
            g = get_call(a, a.strip(t[3][0]))
            if g and S.isbyte(g[1], r):
                look, m = (v == 1) == (t[2].split("::")[-1] == "is_some"), g[0]
                seen.add(look)
                continue
        if t[0] == "call" and t[2].split("::")[-1] == "contains_key" and v in (0, 1) and S.isbyte(a.deref(a.strip(t[3][1])), r):
            look, m = v == 1, a.strip(t[3][0])
            seen.add(look)
            continue
        if t[0] == "call" and rd in a.deps(cn) and t[1] != S.reads[r]["block"] and S.direct(rd, cn):
            raise Undecided("a branch on " + t[2])
    if len(seen) > 1:
        return None     # looked up twice with different outcomes
    return e, look, m, f, esc


def spell(a, S, r, f, esc, n):
    """'esc', 'cur', ('map', m), ('no', text) of a byte written"""
    x = lin(a, n)
    if f.equal(x, ({CUR: 1}, 0)) is True:
        return "cur"
    if f.equal(x, ({esc: 1}, 0)) is True:
        return "esc"
    n = a.uncast(n)
    t = a.n[n]
    if a.g.cval(n) is not None:
        return ("no", "the constant %s" % a.g.cval(n))
    g = get_call(a, n)
    if g:
        if S.isbyte(g[1], r):
            return ("map", g[0])
        return ("no", "what the map has for another symbol")
    if t[0] == "op":
        return ("no", "the result of an operation on symbols")
    if option(a, n):
        return ("no", "the option " + option(a, n))
    if any(S.isbyte(n, q) for q in S.reads):
        return ("no", "another byte of the input")
    raise Undecided("a byte written is not understood: " + a.g.show(n, 3))


def grows(S, p, r):
    """is anything collected on the path?"""
    a = S.a
    return any(a.events.get(b) and not a.events[b].get("modeled") and a.events[b]["last"] in ("push", "extend", "extend_from_slice", "push_back", "insert", "append", "copy_from_slice")
               for b in p.blocks[1:-1])


def transducer(c, prof, rev):
    a = c.A("escape", seeds={"is_reversion": ("const", "bool", rev)}, profile=prof)
    S = Stream(c, a)
    what = "escape --is-reversion" if rev else "escape"
    if not S.ok:
        raise Undecided("the input is not read byte by byte")
    n = 0

    def bad(r, k, msg):
        c.violate("escape|%d|%s|%s" % (rev, a.fn(r), k), a.where(r), "%s: %s" % (what, msg))
    steps, ends = {}, {}
    for r, e in S.reads.items():
        steps[r], ends[r] = S.paths(r, data_value(e)), S.paths(r, eof_value(e))
        if steps[r] is None or ends[r] is None:
            raise Undecided("too many paths")
    start = S.entry()
    if start is None:
        raise Undecided("too many paths")
    for p in start + [p for r in ends for p in ends[r]]:
        w = S.writes(p)
        if w is None:
            raise Undecided("a write is not understood")
        if w:
            bad(p.blocks[0] if p.blocks[0] in S.reads else next(iter(S.reads)), "extra", "something is written that is not the image of a byte of the input")
    plain = {p.blocks[-1] for p in start if p.blocks[-1] in S.reads and p.blocks[-1] not in a.term}
    maps = set()

    def image(p, r, f, esc, m):
        w = S.writes(p)
        if w is None or any(k != "b" for k, _ in w):
            raise Undecided("a write is not understood")
        if not w and grows(S, p, r):
            raise Undecided("the output is collected")
        return [spell(a, S, r, f, esc, x) for _, x in w]

    def show(w):
        return "[" + ", ".join({"esc": "the escape symbol", "cur": "the byte read"}.get(x) or (x[1] if x[0] == "no" else "the mapped symbol") for x in w) + "]"
    after = set()
    todo = [(r, False) for r in plain]
    done = set()
    while todo:
        r, esc_state = todo.pop()
        if (r, esc_state) in done:
            continue
        done.add((r, esc_state))
        for p in steps[r]:
            pf = path_facts(S, p, r)
            if pf is None:
                continue
            e, look, m, f, esc = pf
            q = p.blocks[-1]
            isread = q in S.reads and q not in a.term
            w = image(p, r, f, esc, m)
            n += 1
            c.ok(1, "cases of the byte read")
            if m is not None:
                maps.add(m)
            maps.update(x[1] for x in w if isinstance(x, tuple) and x[0] == "map")
            kinds = [x if isinstance(x, str) else x[0] for x in w]
            if not rev:
                if isread:
                    todo.append((q, False))
                if e is True:
                    if look is True:
                        continue        # the escape symbol is refused as a symbol of --from (C16), so it is no key of the map
                    if kinds in (["esc", "esc"], ["esc", "cur"], ["cur", "esc"], ["cur", "cur"]):
                        continue
                    bad(r, "esc", "for the escape symbol %s is written, not the escape symbol twice" % show(w))
                elif look is True or kinds == ["esc", "map"]:
                    if kinds != ["esc", "map"]:
                        bad(r, "map", "for a symbol of --from %s is written, not the escape symbol and the mapped symbol" % show(w))
                elif e is None:
                    bad(r, "noesc", "%s is written without a test whether the byte read is the escape symbol" % show(w))
                elif look is None:
                    bad(r, "nomap", "%s is written without a test whether the byte read is a symbol of --from" % show(w))
                elif kinds != ["cur"]:
                    bad(r, "plain", "for an ordinary byte %s is written, not the byte" % show(w))
            elif not esc_state:
                if e is True and isread:
                    if w:
                        bad(r, "resc", "for an escape symbol %s is written before the symbol that it escapes is known" % show(w))
                    elif q in plain or any(x[0] == "phi" for x in [a.n[cn] for cn, v, b in p.conds()]):
                        if any(a.n[cn][0] == "phi" for cn, v, b in p.conds()) or any(k in a.g.phis for k in ()) or boolstate(S, steps):
                            raise Undecided("the state is kept in a variable")
                        bad(r, "resc", "an escape symbol is dropped")
                    else:
                        todo.append((q, True))
                elif e is True:
                    bad(r, "rend", "it can end successfully after an escape symbol, without reading the symbol that it escapes")
                elif e is None and kinds == ["cur"]:
                    bad(r, "rnoesc", "a byte is written without a test whether it is the escape symbol")
                elif kinds != ["cur"]:
                    bad(r, "rplain", "for a byte that is not escaped %s is written, not the byte" % show(w))
                if e is not True and isread:
                    if q not in plain:
                        raise Undecided("another read after an ordinary byte")
            else:
                if isread and q not in plain:
                    if not w:
                        bad(r, "adrop", "a symbol after an escape symbol is dropped")
                        continue
                    raise Undecided("another read after an escaped symbol")
                if e is True:
                    if kinds not in (["esc"], ["cur"]):
                        bad(r, "aesc", "for an escaped escape symbol %s is written, not one escape symbol" % show(w))
                elif look is False:
                    pass    # no output of escape
                elif kinds != ["map"]:
                    bad(r, "amap", "for an escaped symbol %s is written, not the symbol it stands for" % show(w))
                elif e is None and look is not True:
                    bad(r, "anoesc", "the symbol after an escape symbol is looked up without a test whether it is the escape symbol itself")
    if not maps:
        raise Undecided("no map")
    for m in maps:
        for k, v, b, idx in contents(c, a, m):
            n += 1
            c.ok(1, "entries of the map")
            if (k, v) != ((TO, FROM) if rev else (FROM, TO)):
                bad(b, "direction", "the map takes a symbol of --%s to one of --%s" % (k.split("_")[0], v.split("_")[0]))
            msg = coverage(c, a, b, idx)
            if msg:
                bad(b, "coverage", msg)
    return n


def boolstate(S, steps):
    a = S.a
    for r in steps:
        for p in steps[r]:
            for cn, v, b in p.conds():
                t = a.n[cn]
                while t[0] in ("not", "flip", "discr"):
                    t = a.n[a.strip(t[1])]
                if t[0] == "phi" and not S.isbyte(cn, r):
                    return True
    return False


@prop("C19", "escape and its reversal are extracted as transducers from all MIR paths between two reads (the byte classified by the branches taken: the escape "
      "symbol, in the map, neither; the bytes written as symbolic values) and compared with the code: escape symbol -> it twice, mapped symbol -> escape symbol "
      "and image, other byte -> itself, and back; the entries of both maps come from all positions of --from and --to in the right direction")
def c19(c):
    n = 0
    for prof in c.profiles():
        for rev in (0, 1):
            try:
                k = transducer(c, prof, rev)
            except Undecided as x:
                c.sample("reversion=%d not decided: %s" % (rev, x))
                continue
            c.sample("reversion=%d: %d cases" % (rev, k))
            n += k
    c.counts["cases and entries"] = n
