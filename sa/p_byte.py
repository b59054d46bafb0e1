"""How bytes and counts are treated: C07, C08, C15, C16."""
import re
from common import *
from reg import prop
from p_out import reads, trails, read_trails, sliced, SOME, NONE

# ------------------------------------------------------------------------------------------------ C07
# byte values a tool may single out: the terminator, the character whose runs rle -z encodes
SPECIAL = {"bwt": {0}, "count_r": {0}, "entropy": {0}, "entropy_kmer": set(), "is_stringattractor": {0}, "mus": set(), "lyndonfactorization": {0}, "rle": {48},
           "count_sigma": set(), "count_z": set(), "count_lexparse": set(), "count_runs": set(), "escape": set(), "mtf": set(), "reverse": set()}
DECODE = re.compile(r"from_utf8(_mut|_unchecked|_lossy)?$|(^|::)(read_to_string|read_line|lines|chars|char_indices|split_whitespace|split_ascii_whitespace|"
                    r"trim\w*|to_ascii_\w+|make_ascii_\w+|is_ascii\w*|is_alphabetic|is_alphanumeric|is_numeric|is_whitespace|is_control|eq_ignore_ascii_case|"
                    r"escape_ascii|from_digit|to_digit|from_str_radix|strip_prefix|strip_suffix|utf8_chunks|trim_ascii\w*)$")
# tools in which the special value may only make the tool refuse its input
GUARD_ONLY = {"entropy", "is_stringattractor"}
LOSSY_OK = {"is_stringattractor": {"from_utf8_lossy"}}


def bytety(ty):
    while True:
        m = re.match(r"&('\w+ )?(mut )?", ty)
        if not m:
            return ty
        ty = ty[m.end():]


class Bytes:
    def __init__(self, a):
        self.a = a
        self.rd = reads(a)
        self.memo = {}
        self.eff = {n for n, t in enumerate(a.n) if t[0] == "eff" and t[1] in self.rd}

    def data(self, n):
        """does n hold something read from the input (not merely something selected by it)?"""
        r = self.memo.get(n)
        if r is None:
            a, seen, todo = self.a, set(), [(n, ())]
            r = False
            while todo and not r:
                it = todo.pop()
                if it in seen:
                    continue
                seen.add(it)
                x, path = it
                if x in self.rd:
                    r = True
                    break
                t = a.n[x]
                if t[0] == "proj":
                    todo.append((t[1], ((t[2],) + path)[:8] if t[2][0] in ("v", "f") else ()))
                elif t[0] == "phi":
                    todo += [(o, path) for o in a.g.phi_ops(x)]
                elif t[0] == "agg" and path and path[0][0] == "v":
                    if t[1][0] != "adt" or t[1][2] == path[0][1]:
                        todo.append((x, path[1:]))
                elif t[0] == "agg" and path and path[0][0] == "f" and path[0][1] < len(t[2]):
                    todo.append((t[2][path[0][1]], path[1:]))
                elif t[0] == "upd" and path and path[0][0] == t[2][0] and t[2][0] in ("v", "f"):
                    todo.append((t[3], path[1:]) if path[0][1] == t[2][1] else (t[1], path))
                elif t[0] in ("store", "wstore"):
                    todo += [(t[1], ()), (t[3], ())]
                elif t[0] == "refproj" or t[0] == "slice":
                    todo.append((t[1], ()))
                elif t[0] == "call" and t[2].split("::")[-1] in ("position", "rposition", "from_elem", "with_capacity", "count", "get", "get_mut") \
                        and "slice" not in t[2] or t[0] in ("len", "discr"):
                    todo += [(y, ()) for y in t[3][:1]] if t[0] == "call" and t[2].split("::")[-1] in ("from_elem", "get", "get_mut") else []
                else:
                    todo += [(y, ()) for y in a.ops(x)]
            self.memo[n] = r
        return r


def is_byte(a, n):
    """is the node a byte taken from the input (not a count or a position)?"""
    t = a.n[a.strip(n)]
    if t[0] == "op" or t[0] == "len":
        return False
    if t[0] == "phi":
        return any(is_byte1(a, o) for o in a.g.phi_ops(a.strip(n)))
    return True


def is_byte1(a, n):
    t = a.n[a.strip(n)]
    return t[0] in ("proj", "load", "hofarg", "call")


@prop("C07", "type-directed dataflow over every tool that reads an input: a byte that comes from the input is compared or matched only with other "
      "bytes or with the documented special values of that tool, never takes part in byte arithmetic, masking or a signed cast, never passes "
      "through a text-decoding or ASCII-class function, and indexes only tables of at least 256 entries; tables over the alphabet cover 0..=255")
def c07(c):
    n = 0
    for prof in c.profiles():
        for tool, allowed in SPECIAL.items():
            a = c.A(tool, profile=prof)
            n += c07_tool(c, a, tool, allowed)
            if tool in BYTE_OUT:
                b = c.A(tool, seeds={"human": ("const", "bool", 0)}, profile=prof) if tool == "rle" else a
                n += c07_chars(c, b, tool)
    c.floor("operations on input bytes", n, 25)


# tools whose output consists of bytes (rle except with --human)
BYTE_OUT = {"bwt", "reverse", "mtf", "rle", "escape", "lyndonfactorization"}


def c07_chars(c, a, tool):
    """a byte of the data that becomes a char is written as two bytes if it is above 127"""
    rd = reads(a)
    chars = {}
    for b in a.reached:
        for ev in a.g.trace.get(b, ()):
            if ev[0] == "cast":
                t = a.n[ev[1]]
                if t[0] == "cast" and t[1] == "u8" and t[2] == "char":
                    chars[ev[1]] = b
        e = a.events.get(b)
        if e and "node" in e and e["last"] in ("from", "into") and e["atys"] and e["atys"][0] == "u8" and ("char" in e["name"] or "char" in str(e["fun"])):
            chars[e["node"]] = b
    if not chars:
        return 0
    n = 0
    for e in a.evs():
        if not ("io::Write" in e["name"] or "io::Write" in e["fun"].get("trait", "") or e["last"] in ("_print", "push", "encode_utf8", "push_str", "from_iter", "collect",
                                                                                                  "to_string", "extend", "insert")):
            continue
        for s in e["snaps"]:
            for x in a.deps(s):
                if x in chars and a.ctldeps(x) & rd:
                    n += 1
                    c.violate("%s|%s|char" % (tool, a.fn(chars[x])), a.where(e["block"]), "%s: a byte of the data is written as a char, which takes two bytes from 128 on" % tool)
    return n


def c07_tool(c, a, tool, allowed):
    B = Bytes(a)
    n = 0

    def bad(b, what, k):
        c.violate("%s|%s|%s" % (tool, a.fn(b), k), a.where(b), "%s: %s" % (tool, what))

    def const_cmp(b, v, kind):
        v &= 255
        if v in allowed and tool in GUARD_ONLY and not ("{closure" in a.fn(b) or kind == "contains" or
                                                        b in a.g.cond and any(s not in a.normal for s in a.succ[b])):
            bad(b, "the byte value %d of the input is singled out (%s) other than to refuse the input" % (v, kind), "guard%d" % v)
        if v not in allowed:
            bad(b, "the byte value %d of the input is singled out (%s)" % (v, kind), "const%d" % v)
    for b in sorted(a.reached):
        blk = a.flat.blocks[b]
        mac = blk.t.get("mac") or ()
        for ev in a.g.trace.get(b, ()):
            if ev[0] == "bin":
                _, v, s, op, ty, x, y = ev
                ty = bytety(ty)
                if ty not in ("u8", "i8"):
                    if op == "BitAnd" and ty in INT:
                        for p, q in ((x, y), (y, x)):
                            m = a.g.cval(q)
                            t = a.n[p]
                            if m is not None and t[0] == "cast" and t[1] == "u8" and B.data(t[3]) and m & 255 != 255:
                                bad(b, "only some bits of an input byte are used", "mask")
                    elif ty in INT and blk.t["k"] != "assert" and op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                        for p, q in ((x, y), (y, x)):
                            m, t = a.g.cval(q), a.n[p]
                            if m is not None and t[0] == "cast" and t[1] == "u8" and B.data(t[3]) and is_byte(a, t[3]):
                                n += 1
                                const_cmp(b, m, op)
                    continue
                dx, dy = B.data(x) and is_byte(a, x), B.data(y) and is_byte(a, y)
                if not dx and not dy:
                    continue
                if blk.t["k"] == "assert":
                    continue
                n += 1
                c.ok(1, "operations on input bytes")
                if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                    k = a.g.cval(y) if dx else a.g.cval(x)
                    if k is not None:
                        const_cmp(b, k, op)
                else:
                    bad(b, "arithmetic (%s) on an input byte" % op, "op" + op)
            elif ev[0] == "cast":
                t = a.n[ev[1]]
                if t[0] == "cast" and t[1] == "u8" and B.data(t[3]) and is_byte(a, t[3]):
                    n += 1
                    c.ok(1, "operations on input bytes")
                    if t[2] == "i8":
                        bad(b, "an input byte is taken for a signed number", "i8")
        if b in a.g.cond and blk.t["k"] == "switch":
            o = blk.t["o"]
            ty = o["p"]["ty"] if o["k"] in ("copy", "move") else o.get("ty")
            x = a.g.cond[b]
            if ty == "u8" and B.data(x) and is_byte(a, x):
                for v, _ in blk.t["ts"]:
                    n += 1
                    c.ok(1, "operations on input bytes")
                    const_cmp(b, v, "match")
        e = a.events.get(b)
        if e is None or a.islog(e):
            continue
        nm, last = e["name"], e["last"]
        if any(B.data(s) for s in e["snaps"]):
            c.ok(1, "calls on input data")
            if DECODE.search(nm) and last not in LOSSY_OK.get(tool, ()) and ("str" in nm or "String" in nm or "char" in nm or "u8" in nm or "num" in nm
                                                                          or "slice" in nm or "Read" in nm or "ascii" in last):
                if last != "lines" or "BufRead" in nm or "str" in nm:
                    if not named_only(a, B, e):
                        bad(b, "%s is applied to the input, which need not be text" % nm, last)
            if last in ("contains", "starts_with", "ends_with", "strip_suffix", "strip_prefix", "split", "memchr", "memrchr") and "slice" in nm:
                for s in e["snaps"][1:]:
                    y = a.strip(s)
                    k = a.g.cval(y)
                    bs = [k] if k is not None else list(a.g.cbytes(y) or b"")
                    for k in bs:
                        const_cmp(b, k, last)
            if re.search(r"num::|u8::", nm) and re.search(r"(wrapping|checked|saturating|overflowing)_\w+$|^(reverse_bits|swap_bytes|rotate_left|"
                                                         r"rotate_right|count_ones|leading_zeros|pow)$", last) and e["atys"] and \
                    bytety(e["atys"][0]) in ("u8", "i8") and B.data(e["snaps"][0]) and is_byte(a, e["snaps"][0]):
                bad(b, "arithmetic (%s) on an input byte" % last, last)
            if last in ("get", "get_mut", "index", "index_mut") and len(e["snaps"]) > 1 and "HashMap" not in nm and "BTree" not in nm:
                n += table(c, a, B, b, e["snaps"][0], e["snaps"][1], bad)
        for ev in a.g.trace.get(b, ()):
            if ev[0] == "set":
                t = a.n[ev[2]]
                if t[0] == "proj" and t[2][0] == "i":
                    n += table(c, a, B, b, t[1], t[2][1], bad)
                loc = ev[1]
                for i, s in enumerate(loc[2]):
                    if s[0] == "i":
                        base = None
                        if loc[0] == "cell":
                            base = a.g.get(a.g.instate.get(b, {}), loc[1], loc[2][:i])
                        if base is not None:
                            n += table(c, a, B, b, base, s[1], bad)
    # ranges over the alphabet
    for x in range(len(a.n)):
        t = a.n[x]
        if t[0] == "call" and t[2].endswith("RangeInclusive::new") or t[0] == "agg" and t[1][1].endswith(("ops::Range", "range::Range")):
            lo, hi = (t[3] if t[0] == "call" else t[2])[:2]
            tl, th = a.n[lo], a.n[hi]
            if tl[0] == "const" and th[0] == "const" and tl[1] == "u8" and th[1] == "u8":
                c.ok(1, "ranges of byte values")
                top = th[2] + 1 if t[0] == "call" else th[2]
                if tl[2] == 0 and top < 256 and top > 128:
                    blk = t[1] if t[0] == "call" else a.entry
                    bad(blk, "a table over the alphabet covers only the byte values below %d" % top, "range")
    c.sample("%s: %d operations on input bytes, special values %s" % (tool, n, sorted(allowed)))
    return n


def named_only(a, B, e):
    """the call does not get the bytes themselves but e.g. an error, a count or a file name"""
    return not any(B.data(s) and ("u8" in ty or "str" in ty or "Read" in ty or "T" in ty or "char" in ty or "[" in ty)
                   for s, ty in zip(e["snaps"], e["atys"]))


def table(c, a, B, b, base, idx, bad):
    i = a.uncast(idx)
    if not B.data(i) or not is_byte(a, i):
        return 0
    # only a byte widened to an index
    t = a.n[a.strip(idx)]
    if not (t[0] == "cast" and (t[1] == "u8" or a.n[a.strip(t[3])][0] == "cast")):
        return 0
    c.ok(1, "tables indexed by input bytes")
    for bs, steps in trails(a, base):
        n = None
        if isinstance(bs, tuple):
            n = a.g.cval(a.strip(bs[1]))
        if n is not None and n < 256:
            bad(b, "a table of %d entries is indexed by an input byte" % n, "table")
    t = a.n[a.strip(base)]
    while t[0] in ("store", "wstore", "eff"):
        t = a.n[t[1] if t[0] != "eff" else t[3]]
    if t[0] == "phi":
        for o in a.g.phi_ops(a.strip(base)):
            if a.n[o][0] in ("repeat", "agg"):
                t = a.n[o]
    if t[0] == "agg" and t[1][0] == "array" and len(t[2]) < 256:
        bad(b, "a table of %d entries is indexed by an input byte" % len(t[2]), "table")
    if t[0] == "repeat":
        try:
            n = int(str(t[2]))
        except ValueError:
            n = None
        if n is not None and n < 256:
            bad(b, "a table of %d entries is indexed by an input byte" % n, "table")
    return 1


# ------------------------------------------------------------------------------------------------ C08
BITS = {"u8": 8, "i8": 7, "u16": 16, "i16": 15, "u32": 32, "i32": 31, "u64": 64, "i64": 63, "usize": 64, "isize": 63, "u128": 128, "i128": 127, "f32": 24}


def sa_bound(a):
    """blocks of the calls that bound the length of the text to 31 bits"""
    return [e["block"] for e in a.evs() if e["last"] == "sort_in_place" and "divsufsort" in e["name"]]


def sa_path(a, b, sas):
    return any(a.dominates(b, s) or a.dominates(s, b) for s in sas)


def counts_to(a, x, k):
    """is x a counter that starts at most at k and is counted up one by one, never when it is k?"""
    seen, todo = set(), [a.strip(x)]
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        t = a.n[y]
        c = a.g.cval(y)
        if isinstance(c, int):
            if not 0 <= c <= k:
                return False
        elif t[0] == "phi":
            todo += [a.strip(o) for o in a.ops(y)]
        elif t[0] == "op" and t[1] == "Add" and a.g.cval(t[4]) == 1 and a.n[a.strip(t[3])][0] == "phi":
            z = a.strip(t[3])
            todo.append(z)
            for b in a.reached:
                for ev in a.g.trace.get(b, ()):
                    if ev[0] == "bin" and ev[1] == y and not any(
                            a.n[q][0] == "op" and (a.n[q][1], v) in (("Eq", 0), ("Ne", 1)) and {a.strip(a.n[q][3]), a.g.cval(a.n[q][4])} >= {z, k} for q, v in a.facts(b)):
                        return False
        else:
            return False
    return True


def fixed(a, n):
    """is n (an array that may have been written to) one of at most 256 elements?"""
    seen, todo = set(), [n]
    while todo:
        x = a.strip(todo.pop())
        if x in seen:
            continue
        seen.add(x)
        t = a.n[x]
        if t[0] == "repeat":
            if not str(t[2]).isdigit() or int(t[2]) > 256:
                return False
        elif t[0] == "agg" and t[1][0] == "array":
            if len(t[2]) > 256:
                return False
        elif t[0] == "phi":
            todo += a.g.phi_ops(x)
        elif t[0] in ("eff", "with", "at", "store", "wstore"):
            todo.append(t[3] if t[0] == "eff" else t[1])
        else:
            return False
    return True


def items_256(a, p):
    """does the iterator give at most 256 items: one over an array of that many bytes or over a range of such length?"""
    for z in a.deps(p):
        w = a.n[z]
        if w[0] == "call" and w[2].split("::")[-1] in ("iter", "iter_mut", "into_iter") and len(w[3]) == 1:
            e = a.events.get(w[1])
            m = re.search(r"; (\d+)\]$", " ".join(e["atys"])) if e else None
            if m and int(m.group(1)) <= 256 or fixed(a, w[3][0]):
                return True
    return False


def impossible(a, facts):
    """do facts about one number exclude each other?"""
    iv = {}
    for cond, v in facts:
        t = a.n[cond]
        if t[0] != "op" or t[1] not in ("Lt", "Le", "Eq", "Ne") or v not in (0, 1):
            continue
        x, y = a.g.cval(t[3]), a.g.cval(t[4])
        if isinstance(x, int) == isinstance(y, int):
            continue
        k, z = (y, t[3]) if isinstance(y, int) else (x, t[4])
        lo, hi = iv.get(z, INT.get(t[2], (-1 << 200, 1 << 200)))
        op, yes, right = t[1], v == 1, isinstance(y, int)
        if op in ("Eq", "Ne"):
            if (op == "Eq") == yes:
                lo, hi = max(lo, k), min(hi, k)
        elif right == yes:          # z < k, z <= k, not k <= z, not k < z
            hi = min(hi, k if (op == "Le") == right else k - 1)
        else:                       # k < z, k <= z, not z <= k, not z < k
            lo = max(lo, k if (op == "Lt") == right else k + 1)
        iv[z] = (lo, hi)
        if lo > hi:
            return True
    return False


def ways(a, x):
    """(join, {edge: value}) of a number that depends on the way taken, also where it is a part of a structure"""
    steps = []
    y = a.strip(x)
    while a.n[y][0] == "proj":
        steps.append(a.n[y][2])
        y = a.n[y][1]
    t = a.n[y]
    if t[0] != "phi" or t[1] in a.g.heads:
        return None, {}
    ins = {}
    for p, o in a.g.phis.get((t[1], t[2]), {}).items():
        for s in reversed(steps):
            o = a.g.proj(o, s)
        ins[p] = o
    return t[1], ins


def below(a, b, x, top, facts=None, d=0, hyp=()):
    """is x < top known at b? hyp: what is assumed of the last iteration"""
    r = a.g.range0(x, "")
    if r and r[1] < top:
        return True
    facts = a.facts(b) if facts is None else facts
    if any(y == a.strip(x) and k <= top for y, k in hyp):
        return True
    if d < 6:
        # a loop-carried number: on the ways in, and by induction on the ways back
        y = a.strip(x)
        t = a.n[y]
        if t[0] == "phi" and t[1] in a.g.heads:
            h = tuple(hyp) + ((y, top),)
            if all(isinstance(a.g.cval(o), int) and a.g.cval(o) < top or a.strip(o) == y or below(a, p, o, top, a.edge_facts(p, t[1]), d + 1, h)
                   for p, o in a.g.phis.get((t[1], t[2]), {}).items()):
                return True
        elif t[0] == "op" and t[1] in ("Sub", "Add") and isinstance(a.g.cval(t[4]), int) and a.g.cval(t[4]) > 0:
            k = a.g.cval(t[4]) * (1 if t[1] == "Sub" else -1)
            if top + k > 0 and below(a, b, t[3], top + k, facts, d + 1, hyp):
                return True
    # a join of ways on each of which it is known
    ph = a.strip(x)
    if d < 4:
        j, ins = ways(a, x)
        if ins and all((isinstance(a.g.cval(o), int) and a.g.cval(o) < top) or impossible(a, a.edge_facts(p, j)) or
                       below(a, p, o, top, a.edge_facts(p, j), d + 1, hyp) for p, o in ins.items()):
            return True
    for cond, v in facts:
        t = a.n[cond]
        if a.strip(cond) == ph and t[0] != "op":        # a match on the number itself
            if isinstance(v, int) and v < top or isinstance(v, tuple) and (top in v[1] or any(
                    isinstance(k, int) and k < top and counts_to(a, x, k) for k in v[1])):
                return True
        if t[0] != "op" or not isinstance(v, int):
            continue
        if t[3] == x:
            k, side = a.g.cval(t[4]), 0
        elif t[4] == x:
            k, side = a.g.cval(t[3]), 1
        else:
            continue
        if k is None:
            continue
        op = t[1]
        if op == "Eq" and v == 0 and k == top or op == "Ne" and v == 1 and k == top:
            return True
        if (op == "Eq" and v == 0 or op == "Ne" and v == 1) and isinstance(k, int) and k < top and counts_to(a, x, k):
            return True
        if op == "Eq" and v == 1 and k < top or op == "Ne" and v == 0 and k < top:
            return True
        if side == 0:
            if op == "Lt" and v == 1 and k <= top or op == "Le" and v == 1 and k < top:
                return True
        else:
            if op == "Le" and v == 0 and k <= top or op == "Lt" and v == 0 and k < top:
                return True
    # a counter that is counted up to a constant
    y, d = a.strip(x), 0
    t = a.n[y]
    if t[0] == "op" and t[1] in ("Sub", "Add") and isinstance(a.g.cval(t[4]), int):
        y, d = a.strip(t[3]), a.g.cval(t[4]) * (1 if t[1] == "Add" else -1)
    if a.n[y][0] == "phi":
        for z in range(len(a.n)):
            t = a.n[z]
            if t[0] == "op" and t[1] in ("Eq", "Ne") and y in (a.strip(t[3]), a.strip(t[4])):
                k = a.g.cval(t[4]) if a.strip(t[3]) == y else a.g.cval(t[3])
                if isinstance(k, int) and k + d < top and counts_to(a, y, k):
                    return True
    return False


def table256(a, base):
    """does the table have at most 256 entries?"""
    for y in a.deps(base):
        u = a.n[y]
        if u[0] == "call" and u[2].endswith("RangeInclusive::new") and a.n[u[3][1]][0] == "const" and a.n[u[3][1]][1] == "u8":
            return True
        if u[0] == "agg" and u[1][1].endswith("ops::Range") and len(u[2]) == 2 and a.n[u[2][1]][0] == "const" and \
                isinstance(a.n[u[2][1]][2], int) and a.n[u[2][1]][2] <= 256:
            return True
        if u[0] == "repeat" and str(u[2]) == "256":
            return True
        if u[0] == "call" and u[2].endswith("from_elem") and a.g.cval(u[3][1]) == 256:
            return True
    return False


def indexings(a):
    """(block, container, index) of every element access"""
    r = getattr(a, "_indexings", None)
    if r is not None:
        return r
    r = []
    for b in a.reached:
        e = a.events.get(b)
        if e is not None and e["last"] in ("get", "get_mut", "index", "index_mut") and len(e["snaps"]) > 1:
            r.append((b, e["snaps"][0], a.uncast(e["snaps"][1])))
        for ev in a.g.trace.get(b, ()):
            if ev[0] == "set":
                t = a.n[ev[2]]
                if t[0] == "proj" and t[2][0] == "i":
                    r.append((b, t[1], a.uncast(t[2][1])))
    a._indexings = r
    return r


def holds_byte(a, x):
    """is x a field of a record in which a byte is kept, and do other fields decide whether it is one?"""
    t = a.n[a.strip(x)]
    if t[0] != "proj" or t[2][0] != "f":
        return False
    nm, adts = t[2][1:], getattr(a, "_bytefields", None)
    if adts is None:
        adts = a._bytefields = set()
        for y in range(len(a.n)):
            u = a.n[y]
            if u[0] == "agg":
                for i, o in enumerate(u[2]):
                    v = a.n[o]
                    if v[0] == "cast" and v[1] == "u8":
                        adts.add(i)
    return nm[0] in adts


def positional(a, x, b=None):
    """is x a position in a table of at most 256 entries?"""
    if holds_byte(a, x):
        return True
    t = a.n[a.uncast(x)]
    while t[0] == "proj" and t[2][0] in "vf":
        t = a.n[a.strip(t[1])]
    if t[0] == "call" and t[2].split("::")[-1] in ("position", "rposition", "binary_search", "find") and t[3] and table256(a, t[3][0]):
        return True
    # a counter with which such a table has been indexed before, so that it has passed the bounds check
    i = a.uncast(x)
    for p, base, j in indexings(a):
        if j == i and (b is None or a.dominates(p, b)) and table256(a, base):
            return True
    # the counter of a loop over such a table
    for y in a.deps(x):
        u = a.n[y]
        if u[0] in ("call",) and u[2].split("::")[-1] == "next" and u[3] and items_256(a, u[3][0]):
            return True
        if u[0] in ("call",) and u[2].split("::")[-1] == "next" and u[3]:
            for z in a.deps(u[3][0]):
                w = a.n[z]
                if w[0] == "agg" and w[1][1].endswith("ops::Range") and len(w[2]) == 2 and (a.g.cval(w[2][1]) or 999) <= 256:
                    return True
                if w[0] == "call" and w[2].endswith("RangeInclusive::new") and a.n[w[3][1]][0] == "const" and a.n[w[3][1]][1] == "u8":
                    return True
    return False


@prop("C08", "type and range analysis of every addition and every narrowing conversion in the tools that read an input: a counter of at most 16 bits "
      "is compared with its maximum on every path to its increment; a 32-bit counter or conversion occurs only on paths through the suffix "
      "sorter, whose i32 positions bound the text; no count is converted to a narrower integer or to f32 without a bound")
def c08(c):
    n = m = 0
    for prof in c.profiles():
        for tool in SPECIAL:
            a = c.A(tool, profile=prof)
            B = Bytes(a)
            sas = sa_bound(a)
            for b in sorted(a.reached):
                e = a.events.get(b)
                if e is not None and a.islog(e):
                    continue
                for ev in a.g.trace.get(b, ()):
                    if ev[0] == "bin" and ev[3] in ("Add", "Mul", "Shl"):
                        _, v, s, op, ty, x, y = ev
                        bits = BITS.get(ty)
                        if bits is None or bits > 32 or a.g.cval(v) is not None:
                            continue
                        n += 1
                        c.ok(1, "narrow additions")
                        lo, hi = INT[ty]
                        if bits <= 16:
                            k = a.g.cval(y)
                            z = x
                            if k is None:
                                k, z = a.g.cval(x), y
                            good = op == "Add" and k is not None and below(a, b, z, hi - k + 1)
                            if not good and tool == "count_sigma" and bits > 8:
                                good = any(a.n[q][0] == "op" and a.n[q][1] in ("Eq", "Ne") and a.n[a.uncast(a.n[q][3])][0] == "proj"
                                           for q, _ in a.facts(b))
                            if not good and is_byte(a, x) and B.data(x):
                                continue
                            if not good:
                                c.violate("%s|%s|%s|%s" % (tool, a.fn(b), op, ty), a.where(b), "%s: a %s counter can exceed %d" % (tool, ty, hi))
                        elif inloop(a, b) and not sa_path(a, b, sas) and accumulates(a, v, x, y):
                            c.violate("%s|%s|%s|%s" % (tool, a.fn(b), op, ty), a.where(b),
                                      "%s: a %s counter can exceed %d: nothing bounds the length of the input here" % (tool, ty, hi))
                    elif ev[0] == "cast":
                        t = a.n[ev[1]]
                        if t[0] != "cast":
                            continue
                        f, to, x = BITS.get(t[1]), BITS.get(t[2]), t[3]
                        if f is None or to is None or to >= f or to > 32 or t[1] == "f32":
                            continue
                        r = a.g.range0(x, t[1])
                        if r and t[2] in INT and INT[t[2]][0] <= r[0] and r[1] <= INT[t[2]][1] and r != INT[t[1]]:
                            continue
                        if isinstance(a.g.cval(x), int):
                            continue
                        if t[1] == "u8" and t[2] in ("i8",):
                            continue
                        m += 1
                        c.ok(1, "narrowing conversions")
                        u = a.n[a.uncast(x)]
                        if u[0] == "op" and u[1] in ("BitAnd", "Rem") or u[0] == "op" and u[1] == "Shr":
                            continue
                        if positional(a, x, b) or to < 32 and t[2] in INT and below(a, b, x, INT[t[2]][1] + 1):
                            continue
                        if to in (31, 32) and sa_path(a, b, sas):
                            continue
                        c.violate("%s|%s|cast|%s" % (tool, a.fn(b), t[2]), a.where(b), "%s: a %s count is cut down to %s without a bound" % (tool, t[1], t[2]))
                if e is not None and e["last"] in ("wrapping_add", "saturating_add", "overflowing_add", "unchecked_add") and e["atys"]:
                    ty = bytety(e["atys"][0])
                    bits = BITS.get(ty, 64)
                    if (bits <= 16 or bits <= 32 and inloop(a, b) and not sa_path(a, b, sas)) and not (
                            e["snaps"] and below(a, b, a.strip(e["snaps"][0]), INT[ty][1])):
                        n += 1
                        c.violate("%s|%s|%s" % (tool, a.fn(b), e["last"]), a.where(b), "%s: a %s counter stops counting at its maximum" % (tool, ty))
                if e is not None and e["last"] in ("try_from", "try_into") and e["snaps"]:
                    c.ok(1, "checked conversions")
            c.sample("%s: %d suffix sorters bound the text" % (tool, len(sas)))
    c.floor("narrow additions and conversions", n + m, 12)


def accumulates(a, v, x, y):
    """is the sum fed back into one of its operands?"""
    return v in a.deps(x) or v in a.deps(y) or any(a.n[z][0] in ("load",) for z in (x, y))
