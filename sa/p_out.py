"""What the tools report, and what they do to the text: C10, C14."""
import os, re
import extract
from common import *
from reg import prop
from props import sink_roots, writer_arg
from paths import lin

SOME = ("variant", "std::option::Option", 1, "Some", 1)
NONE = ("variant", "std::option::Option", 0, "None", 0)

SAMELEN = re.compile(r"(^|::)(sort\w*|reverse|fill|swap|iter_mut|reserve|reserve_exact|shrink_to_fit|sort_in_place|rotate_left|rotate_right|"
                     r"copy_from_slice|clone_from_slice|fill_with|as_mut_slice|make_ascii_\w+)$")
READER = re.compile(r"(^|::)(read_to_end|read_to_string)$")


def trails(a, n, seen=None, own=None):
    """how a vector came about: {(base, (steps))}, base READ | NEW | ELEM n | ?; steps (name, constant argument)"""
    seen = seen or frozenset()
    if n in seen and a.n[n][0] == "phi":
        return {(("ROUND", n), ())}
    if n in seen or len(seen) > 200:
        return set()
    s2 = seen | {n}
    t = a.n[n]
    k = t[0]
    if k in ("at", "with"):
        return trails(a, t[1], s2, own)
    if k == "phi":
        out = set()
        for o in a.g.phi_ops(n):
            out |= trails(a, o, s2, own)
        again = {s for b, s in out if b == ("ROUND", n) and s}
        out = {(b, s) for b, s in out if b != ("ROUND", n)}
        return out | {(b, s + r) for b, s in out for r in again}
    if k == "eff":
        c = a.n[t[1]]
        last = c[2].split("::")[-1] if c[0] == "call" else "?"
        if READER.search(last) and t[2] != 0:
            return {(b if b == "NEW" and False else "READ", ()) for b, s in trails(a, t[3], s2, own)} or {("READ", ())}
        if last in ("read_to_end", "read_to_string", "read_exact"):
            return {("READ", ())}
        if last in ("reserve", "reserve_exact", "shrink_to_fit", "as_mut_slice", "iter_mut", "deref_mut", "as_slice", "as_ref"):
            return trails(a, t[3], s2, own)
        if own is not None and c[0] == "call" and not own(c[1]):
            return trails(a, t[3], s2, own)
        v = a.g.cval(a.strip(c[3][1])) if c[0] == "call" and len(c[3]) > 1 else None
        if last in ("extend_from_slice", "extend", "append", "write_all", "clone_from", "copy_from_slice") and len(c[3]) > 1:
            prev = trails(a, t[3], s2, own)
            if prev and all(b == "NEW" and not s for b, s in prev) and a.n[a.strip(c[3][1])][0] != "slice":
                return trails(a, c[3][1], s2, own)
        steps = ((last, v),)
        if last in ("extend_from_slice", "extend", "write_all", "append") and len(c[3]) > 1:
            bs = literals(a, c[3][1])
            if bs is not None:
                steps = tuple(("push", x) for x in bs)
        if last in ("resize", "insert") and len(c[3]) > 2:
            new = lin(a, c[3][1])
            if set(new[0].values()) == {1} and len(new[0]) == 1 and new[1] == (last == "resize"):
                ln = a.n[next(iter(new[0]))]
                if ln[0] == "len" and trails(a, ln[1], s2, own) == trails(a, t[3], s2, own):
                    steps = (("push", a.g.cval(a.strip(c[3][2]))),)
        return {(b, s + steps) if len(s) < 6 else (b, s) for b, s in trails(a, t[3], s2, own)}
    if k in ("store", "wstore"):
        return {(b, s + (("store", None),)) if len(s) < 6 else (b, s) for b, s in trails(a, t[1], s2, own)}
    if k == "proj":
        return trails(a, t[1], s2, own)
    if k == "call":
        if isname(t[2], "fs::read", "fs::read_to_string"):
            return {("READ", ())}
        if re.search(r"Vec::(new|with_capacity)$|String::(new|with_capacity)$", t[2]):
            return {("NEW", ())}
        if t[2].endswith("from_elem") and len(t[3]) > 1:
            return {(("ELEM", t[3][1]), ())}
        if t[2].split("::")[-1] in ("into_bytes", "into_vec", "into_boxed_slice", "collect", "into_iter", "into") and t[3]:
            r = trails(a, t[3][0], s2, own)
            return {(b, s) for b, s in r}
    return {("?", ())}


def literals(a, n):
    """the numbers of a short literal sequence, None if n is something else"""
    n = a.strip(n)
    t = a.n[n]
    if t[0] in ("at", "with"):
        return literals(a, t[1])
    if t[0] == "agg" and t[1][1].endswith("option::Option") and t[1][2] == 0:
        return []
    if t[0] == "agg" and t[1][1].endswith("option::Option") and len(t[2]) == 1:
        v = a.g.cval(a.strip(t[2][0]))
        return None if v is None else [v]
    if t[0] == "call" and t[2].split("::")[-1] in ("into_iter", "iter", "copied", "cloned", "to_vec", "as_slice", "into_vec",
                                                     "box_assume_init_into_vec_unsafe") and len(t[3]) == 1:
        return literals(a, t[3][0])
    if t[0] == "upd":
        return literals(a, t[3])
    if t[0] == "call" and t[2].split("::")[-1] in ("once", "from_ref") and len(t[3]) == 1:
        v = a.g.cval(a.strip(t[3][0]))
        return None if v is None else [v]
    b = a.g.cbytes(n)
    if b is not None:
        return list(b) if len(b) <= 4 else None
    if t[0] == "agg" and t[1][0] == "array" and len(t[2]) <= 4:
        v = [a.g.cval(a.strip(x)) for x in t[2]]
        return None if None in v else v
    if t[0] == "repeat" and isinstance(t[2], int) and t[2] <= 4 and a.g.cval(a.strip(t[1])) is not None:
        return [a.g.cval(a.strip(t[1]))] * t[2]
    return None


def veclen(a, n, depth=0):
    """lengths a vector can have, in terms of what was read: {(READ | number node, offset) | None}"""
    out = set()
    for b, steps in trails(a, n):
        off = 0
        for nm, v in steps:
            if nm == "push":
                off += 1
            elif nm in ("pop", "remove", "swap_remove"):
                off -= 1
            elif nm == "store" or SAMELEN.search(nm):
                pass
            else:
                off = None
                break
        if off is None:
            out.add(None)
        elif b == "READ":
            out.add(("READ", off))
        elif isinstance(b, tuple):
            t = a.n[a.uncast(b[1])]
            if t[0] == "len" and depth < 5:
                for x in veclen(a, t[1], depth + 1):
                    out.add((x[0], x[1] + off) if x else None)
            else:
                out.add(None)
        else:
            out.add(None)
    return out


# ------------------------------------------------------------------------------------------------ C10
# tool -> keys of the line; kinds: time, length, name, opt:<field>, count (a count computed from the text), num (a float), list
LINES = {
    "count_r": {"algo": "lit", "time_ms": "time", "length": "length", "bwt_runs": "count", "file": "name", "no_dollar": "opt:no_dollar",
                "use_matrix": "opt:use_matrix"},
    "count_sigma": {"algo": "lit", "time_ms": "time", "length": "length", "sigma": "count", "file": "name"},
    "count_z": {"algo": "lit", "time_ms": "time", "length": "length", "factors": "veccount", "file": "name"},
    "count_lexparse": {"algo": "lit", "time_ms": "time", "length": "length", "factors": "veccount", "file": "name"},
    "entropy": {"algo": "lit", "order": "opt:order", "time_ms": "time", "length": "length", "entropy": "num", "input": "name"},
    "entropy_kmer": {"algo": "lit", "order": "opt:order", "time_ms": "time", "length": "length", "entropy": "num", "input": "name"},
    "lyndonfactorization": {"algo": "lit", "time_ms": "time", "length": "length", "factors": "veccount", "file": "name"},
    "mus": {"time_ms": "time", "length": "length", "mus": "list", "file": "name"},
}
PUSHED = {"count_r": 1, "entropy": 1, "entropy_kmer": 1, "mus": 1, "count_sigma": 0, "count_z": 0, "count_lexparse": 0, "lyndonfactorization": 0}
ALGO = {"count_r": "bwt", "count_sigma": "count_sigma", "count_z": "lz77", "count_lexparse": "lexparse", "entropy": "count_entropy",
        "entropy_kmer": "count_entropy_hash", "lyndonfactorization": "duval"}


def reads(a):
    return {e["node"] for e in a.evs(log=True) if not e.get("modeled") and
            (READER.search(e["name"]) or isname(e["name"], "fs::read") or "io::Read::" in e["name"] or "io::BufRead::" in e["name"] or
             "io::Read" in e["fun"].get("trait", "") or isname(e["name"], "io::copy"))}


def sequence_text(a, blocks, evs):
    """parts of everything printed by a sequence of events, None if not understood"""
    from an import merge_lits
    out = []
    for b in blocks:
        e = evs[b]
        if e["last"] in ("_print", "write_fmt"):
            p = a.fmt(e["args"][-1])
        else:
            p = a.strparts(e["snaps"][1])
        if p is None:
            return None
        out += p
    return merge_lits(out)


def tokens(parts):
    """splits at spaces: [(key, [value parts])]; a token without '=' has key None"""
    toks, cur = [], []
    for p in parts:
        if p[0] == "arg":
            cur.append(p)
            continue
        s = p[1].decode("utf8", "replace")
        for i, x in enumerate(re.split(r"(\s+)", s)):
            if not x:
                continue
            if x.isspace():
                if cur:
                    toks.append(cur)
                cur = []
            else:
                cur.append(("lit", x))
    if cur:
        toks.append(cur)
    out = []
    for t in toks:
        if t[0][0] == "lit" and "=" in t[0][1]:
            k, v = t[0][1].split("=", 1)
            out.append((k, ([("lit", v)] if v else []) + t[1:]))
        else:
            out.append((None, t))
    return out


def optfield(a, n, name):
    """is n the parsed option itself?"""
    t = a.n[a.strip(n)]
    if t[0] == "sym":
        return t[1] == name
    return t[0] == "proj" and t[2][0] == "f" and t[2][2] == name


def arith(a, n):
    """operators between n and the first call, length or merge"""
    n = a.uncast(n)
    t = a.n[n]
    return [t[1]] if t[0] == "op" else []


def bad_value(a, tool, key, kind, val, rd, named):
    """None, or what is wrong with the value of a token"""
    if kind == "lit":
        if len(val) != 1 or val[0][0] != "lit":
            return "is not the name of the algorithm"
        want = ALGO.get(tool)
        return None if val[0][1] == want else "is %s instead of %s" % (val[0][1], want)
    if len(val) != 1 or val[0][0] != "arg":
        if kind == "name" and not named and len(val) == 1 and val[0][0] == "lit":
            return None if val[0][1] == "none" else "is %s instead of none" % val[0][1]
        return "is not one value"
    n, how = val[0][1], val[0][2]
    if "w" in how.split("+spec")[-1] and "+spec" in how:
        return "is padded, which splits the token"
    if "#" in how:
        return "is printed over several lines"
    t = a.n[a.uncast(n)]
    deps = a.deps(n)
    calls = {a.n[x][2].split("::")[-1] for x in deps if a.n[x][0] == "call"}
    if kind == "time":
        if t[0] != "call" or t[2].split("::")[-1] != "as_millis":
            return "is not a number of milliseconds"
        if not calls & {"elapsed", "duration_since", "sub"}:
            return "is not the elapsed time"
        return None
    if kind.startswith("opt:"):
        sd = a.g.seeds.get(kind[4:])
        if sd and sd[0] == "const" and a.g.cval(a.strip(n)) == sd[2]:
            return None
        return None if optfield(a, n, kind[4:]) else "is not the option --%s" % kind[4:].replace("_", "-")
    if kind == "name":
        s = a.strip(n)
        if named:
            if a.n[s][0] in ("sym", "proj") and any(a.n[x][0] == "sym" and a.n[x][1] == "infilename" for x in deps):
                return None
            if any(a.n[x][0] == "sym" and a.n[x][1] == "infilename" for x in deps) and not calls & {"file_name", "file_stem", "canonicalize", "trim",
               "to_lowercase", "to_uppercase", "split", "rsplit", "replace"} - {"replace"}:
                return None
            return "is not the name given with --infilename"
        return None if a.g.cbytes(s) == b"none" else "is not the word none when no input is named"
    if not a.ctldeps(n) & rd:
        return "does not depend on the text"
    if how.startswith("debug") and kind != "list":
        pass
    if kind == "length":
        x = n
        while a.n[x][0] in ("at", "with", "cast"):
            if a.n[x][0] == "cast" and a.cuts(a.n[x]):
                return "is cut down from %s to %s" % (a.n[x][1], a.n[x][2])
            x = a.n[x][3] if a.n[x][0] == "cast" else a.n[x][1]
        w = not_text_length(a, n)
        if w:
            return w
        if t[0] == "call" and t[2].split("::")[-1] in ("count", "len"):
            return None
        if t[0] == "len":
            ls = veclen(a, t[1])
            want = PUSHED[tool]
            if tool == "count_r":
                want = 0 if a.g.seeds.get("no_dollar", (0, 0, 0))[2] else 1
            for x in ls:
                if x and x != ("READ", want):
                    return "is the length of the text %+d" % (x[1] - want)
            if None in ls and not all_same_source(a, t[1], rd):
                return "is not the length of the text"
            return None
        if t[0] == "op":
            return "is computed with %s from a length" % t[1]
        if t[0] == "phi" and (tool == "entropy_kmer"):
            return None
        if t[0] == "phi":
            for o in a.g.phi_ops(a.uncast(n)):
                if a.n[a.uncast(o)][0] == "op" and a.n[a.uncast(o)][1] == "Add":
                    return None
            return None
        return "is not a length"
    if kind == "veccount":
        if t[0] == "len":
            return None
        if t[0] == "op":
            return "is computed with %s from a count" % t[1]
        return None
    if kind == "count":
        if t[0] == "op" and t[1] not in ("Add",):
            return "is computed with %s from a count" % t[1]
        return None
    return None


def not_text_length(a, n, d=0):
    """an option or a constant reported in place of the length, on some path"""
    n = a.uncast(n)
    t = a.n[n]
    if d > 6:
        return None
    if t[0] == "sym" or t[0] == "proj" and t[2][0] == "f" and a.n[t[1]][0] == "call" and a.g.is_parse(a.n[t[1]]):
        return "is the value of an option"
    if t[0] == "phi" and not any(a.dominates(t[1], p) for p in a.pred.get(t[1], ())):
        for o in a.g.phi_ops(n):
            r = not_text_length(a, o, d + 1)
            if r:
                return r + " on some path"
    if t[0] == "call" and t[2].split("::")[-1] in ("max", "saturating_add", "saturating_sub", "wrapping_add"):
        for o in t[3]:
            r = not_text_length(a, o, d + 1)
            if r:
                return r + " (%s)" % t[2].split("::")[-1]
    return None


def all_same_source(a, n, rd):
    return bool(a.ctldeps(n) & rd)


def stat_patterns():
    """tool -> [(line, regex)] of the sed expressions that pick values out of the RESULT line"""
    out, cur = {}, None
    p = os.path.join(extract.REPO, "compute_stats.sh")
    if not os.path.exists(p):
        return out
    varof = {}
    for i, l in enumerate(open(p, encoding="utf8", errors="replace"), 1):
        m = re.search(r"--bin[= ](\w+)", l)
        v = re.match(r"\s*(\w+)=\$\(", l)
        pats = re.findall(r"sed 's@(.*?)@\\1@'", l)
        tool = m.group(1) if m else None
        if tool and v:
            varof[v.group(1)] = tool
        if not tool:
            u = re.search(r"\$(\w+)\s*\|\s*sed", l)
            tool = varof.get(u.group(1)) if u else None
        for x in pats:
            if tool:
                rx = x.replace("\\(", "\0(").replace("\\)", "\0)").replace("\\+", "\0+")
                rx = re.sub(r"(?<!\0)([()+?{}|])", r"\\\1", rx).replace("\0", "")
                out.setdefault(tool, []).append((i, rx))
    return out


@prop("C10", "the print events on every feasible path of the measuring tools (the format templates are decoded from MIR): exactly one RESULT line "
      "and nothing else on standard output before a successful ending, one newline at its end, blank-separated key=value tokens with the "
      "documented unique keys; provenance of every value by dataflow (the length comes from the vector read plus its terminator, time_ms is "
      "as_millis of an elapsed time, names and options are the parsed ones, counts and entropies depend on the text); the sed expressions of "
      "compute_stats.sh match the line")
def c10(c):
    n = under = 0
    pats = stat_patterns()
    for prof in c.profiles():
        for tool, keys in LINES.items():
            for named in (True, False):
                for nd in ((0, 1) if tool == "count_r" or "outfilename" in argfields(c, tool) else (0,)):
                    seeds = {"infilename": SOME if named else NONE}
                    if tool == "count_r":
                        seeds["no_dollar"] = ("const", "bool", nd)
                    elif "outfilename" in argfields(c, tool):
                        seeds["outfilename"] = SOME if nd else NONE
                    a = c.A(tool, seeds=seeds, profile=prof)
                    r = c10_tool(c, a, tool, keys, named, pats.get(tool, []))
                    n += r[0]
                    under += r[1]
        a = c.A("count_runs", profile=prof)
        seqs = print_sequences(c, a, "count_runs")
        for seq, evs in seqs:
            c.ok(1, "print sequences")
            parts = sequence_text(a, seq, evs)
            if parts is None:
                continue
            args = [p for p in parts if p[0] == "arg"]
            lit = b"".join(p[1] for p in parts if p[0] == "lit")
            if len(args) != 1 or lit != b"\n":
                c.violate("count_runs|line", a.where(seq[0]) if seq else "count_runs::main", "count_runs does not print exactly one number and a newline")
    c.floor("RESULT sequences", n, 16)
    c.floor("RESULT lines understood", under, 12)


def print_sequences(c, a, tool):
    """the sequences of prints to standard output on the paths that end well: [(blocks, events)]"""
    ex = c.explorer(a, end_extras(a))
    evs = {}
    for e in a.evs():
        if e["last"] == "_print" and "io::" in e["name"]:
            evs[e["block"]] = e
        elif ("io::Write::" in e["name"] or "io::Write" in e["fun"].get("trait", "")) and e["last"] in ("write_all", "write", "write_fmt"):
            if any(k == "stdout" for k, _ in sink_roots(a, writer_arg(a, e))):
                evs[e["block"]] = e

    def step(b, au, env):
        if b in evs:
            if len(au) > 24:
                return None
            return au + (b,)
        return au
    out, seen = [], set()
    # prints in loops make the exploration diverge: count them apart
    loops = {b for b in evs if inloop(a, b)}
    if loops:
        b = min(loops)
        c.violate("%s|%s|loop" % (tool, a.fn(b)), a.where(b), "%s: prints to standard output in a loop" % tool)
        return []
    for end in ex.run(a.entry, (), step):
        if a.term[end[0]][0] in ("ret", "exit") and end_success(a, ex, end) and end[1] not in seen:
            seen.add(end[1])
            out.append((end[1], evs))
    return out


def c10_tool(c, a, tool, keys, named, pats):
    n = under = 0
    rd = reads(a)
    for seq, evs in print_sequences(c, a, tool):
        n += 1
        c.ok(1, "print sequences")
        where = a.where(seq[0]) if seq else tool + "::main"
        if not seq:
            c.violate("%s|silent" % tool, where, "%s: can end successfully without a RESULT line" % tool)
            continue
        parts = sequence_text(a, seq, evs)
        if parts is None:
            if len(seq) > 1 and all(a.fmt(evs[b]["args"][-1]) is not None for b in seq[:0]):
                pass
            continue
        under += 1
        lits = b"\0".join(p[1] for p in parts if p[0] == "lit")
        if not (parts and parts[0][0] == "lit" and parts[0][1].startswith(b"RESULT ")):
            c.violate("%s|prefix" % tool, where, "%s: what it prints does not start with RESULT and a blank" % tool)
            continue
        if lits.count(b"\n") != 1 or not (parts[-1][0] == "lit" and parts[-1][1].endswith(b"\n")) or b"\r" in lits or b"\t" in lits:
            c.violate("%s|onlyline" % tool, where, "%s: does not print exactly one line" % tool)
            continue
        toks = tokens(parts)
        if toks[0] != (None, [("lit", "RESULT")]):
            c.violate("%s|prefix" % tool, where, "%s: the line does not start with RESULT" % tool)
        got = {}
        for k, v in toks[1:]:
            if k is None:
                c.violate("%s|token" % tool, where, "%s: a token is not of the form key=value" % tool)
            elif k in got:
                c.violate("%s|%s|twice" % (tool, k), where, "%s: the key %s appears twice" % (tool, k))
            got[k] = v
        for k, kind in keys.items():
            c.ok(1, "tokens")
            if k not in got:
                c.violate("%s|%s|missing" % (tool, k), where, "%s: the key %s is missing" % (tool, k))
                continue
            bad = bad_value(a, tool, k, kind, got[k], rd, named)
            if bad:
                c.violate("%s|%s|value" % (tool, k), where, "%s: the value of %s %s" % (tool, k, bad))
        # what compute_stats.sh makes of it
        line, where_ = "", {}
        val = {}
        for k, v in toks:
            pass
        line, pos = render(parts)
        for i, rx in pats:
            c.ok(1, "expressions of compute_stats.sh")
            key = re.search(r"(\w+)=", rx)
            try:
                m = re.fullmatch(rx.encode(), line.rstrip(b"\n")) or re.search(rx.encode(), line.rstrip(b"\n"))
            except re.error:
                continue
            want = re.search(rb"(?:^| )" + key.group(1).encode() + rb"=(\S+)", line) if key else None
            if not m or not want or m.group(1) != want.group(1):
                c.violate("%s|sed|%s" % (tool, key.group(1) if key else i), where,
                          "%s: line %d of compute_stats.sh does not pick the value out of the RESULT line" % (tool, i))
        c.sample("%s: %s" % (tool, line.decode().strip()))
    return n, under


def render(parts):
    out = b""
    for p in parts:
        if p[0] == "lit":
            out += p[1]
        else:
            k = re.search(rb"(\w+)=$", out)
            k = k.group(1) if k else b""
            out += b"1.25" if k == b"entropy" else b"name" if k in (b"file", b"input") else b"[(1,2)]" if k == b"mus" else \
                b"false" if k in (b"no_dollar", b"use_matrix") else b"12"
    return out, None


# ------------------------------------------------------------------------------------------------ C14
TERMINATED = {"bwt": None, "count_r": None, "entropy": 1, "entropy_kmer": 1, "is_stringattractor": 1, "mus": 1, "count_sigma": 0, "count_z": 0,
              "count_lexparse": 0, "lyndonfactorization": 0, "reverse": "r"}


def text_uses(a):
    """every place where the contents of a vector read from the input are looked at: [(block, vector node, how)]"""
    out = []
    for b in sorted(a.reached):
        for ev in a.g.trace.get(b, ()):
            if ev[0] not in ("set", "bin"):
                continue
            st = [ev[2]] if ev[0] == "set" else [a.strip(ev[5]), a.strip(ev[6])]
            for n in st:
                t = a.n[n]
                if t[0] == "proj" and t[2][0] == "i":
                    out.append((b, t[1], "index" if ev[0] == "set" else "compare"))
        e = a.events.get(b)
        if e is None or e.get("modeled") or a.islog(e):
            continue
        for i, s in enumerate(e["snaps"]):
            t = a.n[s]
            if t[0] != "at":
                continue
            if e["last"] in ("len", "is_empty", "capacity", "drop", "drop_in_place", "push", "reserve", "reserve_exact", "resize", "insert"):
                continue
            x = t[1]
            out.append((b, x, e["name"]))
    return out


COPIES = {"extend_from_slice", "extend", "append", "clone_from", "copy_from_slice", "to_vec", "clone", "from", "into", "concat", "to_owned"}
PARTIAL = {"filter", "filter_map", "skip", "take", "step_by", "skip_while", "take_while", "dedup", "map_while", "rev", "nth", "chunks", "windows"}
PARTS = {"trim_ascii", "trim_ascii_start", "trim_ascii_end", "strip_prefix", "strip_suffix", "split_at", "split_first", "split_last", "split", "splitn", "rsplit", "rsplitn",
         "split_inclusive", "first_chunk", "last_chunk", "split_once", "split_at_checked", "array_chunks", "as_chunks", "chunks_exact"}
PLUMB = {"copied", "cloned", "by_ref", "iter", "into_iter", "unwrap", "expect", "len", "is_empty", "deref", "next", "eq", "ne", "is_some", "is_none", "unwrap_or", "unwrap_or_default",
         "map_or", "map", "memchr", "is_some_and", "branch"}
MEMBER = {"any", "all", "position", "contains", "find", "rposition", "count"}


def read_trails(a, n):
    # the library gets the text by shared reference: what it changes are copies of its own
    return {s for b, s in trails(a, n, own=lambda b: not a.fn(b).lstrip("<").startswith("stringology::core")) if b == "READ"}


def sliced(a, n):
    """the whole vector a partial slice was taken from, None if n is not a slice"""
    t = a.n[n]
    if t[0] in ("at", "with"):
        return sliced(a, t[1])
    if t[0] == "slice":
        r = a.n[t[2]]
        if r[0] == "agg" and r[1][1].endswith("RangeFull"):
            return None
        if r[0] == "agg" and r[1][1].endswith("RangeFrom") and a.g.cval(r[2][0]) == 0:
            return None
        if r[0] == "const" and "RangeFull" in r[1]:
            return None
        if r[0] == "agg" and r[1][1].endswith("::Range") and a.g.cval(r[2][0]) == 0 and a.n[r[2][1]][0] == "len":
            return None
        return t[1]
    return None


def swaps_all(a, e):
    """does the loop around the exchange reverse the whole vector? None: no answer"""
    from p_io import range_of
    v, b = e["snaps"][0], e["block"]
    if not inloop(a, b):
        return False
    x, y = e["snaps"][1], e["snaps"][2]
    ends = set()
    for w in (x, y):
        ends |= {k for k in lin(a, w)[0] if a.n[k][0] == "len"}
    if len(ends) > 1:
        return None
    for i, j in ((x, y), (y, x)):
        ti = a.n[a.strip(i)]
        # an index that runs over a range, and its mirror image
        while ti[0] == "proj":
            ti = a.n[ti[1]]
        if ti[0] == "call" and ti[2].split("::")[-1] == "next":
            r = range_of(a, ti[3][0])
            if r is None or not ends:
                continue
            n = next(iter(ends))
            if lin(a, j) != ({n: 1, a.strip(i): -1}, -1):
                return False if set(lin(a, j)[0]) == {n, a.strip(i)} else None
            lo, hi, incl = r
            k, off = lin(a, hi)
            th = a.n[next(iter(k))] if len(k) == 1 else ("?",)
            if incl or a.g.cval(lo) is None:
                return None
            if th[0] == "op" and th[1] in ("Div", "Shr") and a.g.cval(th[4]) == (2 if th[1] == "Div" else 1):
                k = lin(a, th[3])
                return a.g.cval(lo) == 0 and not off and k[0] == {n: 1} and k[1] in (0, 1)
            return None
    return None


def spell(steps):
    return ", ".join("%s%s" % (nm, "(%d)" % v if v is not None else "") for nm, v in steps) or "nothing"


@prop("C14", "dataflow from the read of the input to every place where the tool looks at the text (index, iteration, call): the vector is the one "
      "read, on which exactly one push of the constant 0 has happened in the tools that analyse a terminated text (bwt and count_r unless "
      "--no-dollar, entropy, entropy_kmer, mus, is_stringattractor) and nothing in the others; reverse writes the vector after exactly one "
      "reverse; no partial slice or dropping adaptor stands in for the text")
def c14(c):
    n = 0
    for prof in c.profiles():
        for tool, term in TERMINATED.items():
            cases = [(None, term)] if term is not None else [({"no_dollar": ("const", "bool", 0)}, 1), ({"no_dollar": ("const", "bool", 1)}, 0)]
            for seeds, tm in cases:
                a = c.A(tool, seeds=seeds, profile=prof)
                n += c14_tool(c, a, tool, tm)
    c.floor("places where a text is used", n, 25)


def short_text(a):
    """is there a case of its own for a text of at most one byte?"""
    for b, x in a.g.cond.items():
        t = a.n[x]
        while t[0] == "not":
            t = a.n[t[1]]
        if t[0] == "call" and t[2].endswith("is_empty"):
            return True
        if t[0] == "op" and t[1] in ("Eq", "Ne", "Lt", "Le"):
            for y, z, least in ((t[3], t[4], False), (t[4], t[3], True)):
                k = a.g.cval(a.strip(z))
                if a.n[a.strip(y)][0] == "len" and isinstance(k, int):
                    # what is left out has at most one byte
                    if t[1] in ("Eq", "Ne") and k in (0, 1) or t[1] == "Lt" and k in ((0, 1) if least else (1, 2)) or t[1] == "Le" and k in ((1, 2) if least else (0, 1)):
                        return True
    return False


def c14_tool(c, a, tool, tm):
    want = {1: (("push", 0),), 0: (), "r": (("reverse", None),)}[tm]
    n = 0
    opt = "" if "no_dollar" not in a.g.seeds else " with --no-dollar" if tm == 0 else " without --no-dollar"
    for b, x, how in text_uses(a):
        last = how.split("::")[-1]
        if last in COPIES:
            continue
        w = sliced(a, x)
        if w is not None and read_trails(a, w) and tool != "reverse":
            if how in ("index", "compare") or last in ("sort_in_place", "bytes"):
                c.violate("%s|%s|slice" % (tool, a.fn(b)), a.where(b), "%s%s: only a part of the text is looked at" % (tool, opt))
            continue
        rt = read_trails(a, x)
        if not rt:
            continue
        n += 1
        c.ok(1, "uses of a text")
        if tool == "reverse":
            if last not in ("write_all", "write"):
                continue
            if any(nm == "swap" for s in rt for nm, _ in s):
                for e in a.evs():
                    if e["last"] == "swap" and len(e["snaps"]) == 3 and read_trails(a, e["snaps"][0]) and swaps_all(a, e) is False:
                        c.violate("%s|%s|swap" % (tool, a.fn(b)), a.where(e["block"]), "reverse: the exchanges made here do not reverse the text")
                if all(x[0] == "swap" for s in rt for x in s):
                    continue
        for s in rt:
            if tool == "reverse" and s == () and want in rt and short_text(a):
                continue
            if s != want and not (how == "compare" and any(x[0] in COPIES for x in s)):
                c.violate("%s|%s|%s" % (tool, a.fn(b), spell(s)), a.where(b), "%s%s: the text is used here after %s instead of %s since it was read"
                          % (tool, opt, spell(s), spell(want)))
    # slices and adaptors that drop a part of the text
    for e in a.evs():
        if e.get("modeled") or not e["snaps"] or tool in ("reverse",):
            continue
        b = e["block"]
        own = a.fn(b).split("::")[0].lstrip("<") == tool
        if e["last"] in ("iter", "into_iter", "iter_mut") and own and tool != "lyndonfactorization":
            w = sliced(a, e["snaps"][0])
            if w is not None and read_trails(a, w):
                us = [u for u in a.evs() if u is not e and any(e["node"] in a.deps(s) for s in u["snaps"][:1])]
                if us and not all(u["last"] in MEMBER or u["last"] in ("copied", "cloned", "by_ref") for u in us):
                    c.violate("%s|%s|slice" % (tool, a.fn(b)), a.where(b), "%s%s: only a part of the text is looked at" % (tool, opt))
        if e["last"] in PARTS and read_trails(a, e["snaps"][0]) and "node" in e:
            us = [u for u in a.evs() if u is not e and any(e["node"] in a.deps(s) for s in u["snaps"][:1])]
            if not us or not all(u["last"] in MEMBER or u["last"] in PLUMB for u in us):
                if e["last"] in ("split_at", "split_at_checked", "split_first", "split_last") and all(
                        any(t[0] == "proj" and t[2][:2] == ("f", i) and e["node"] in a.deps(t[1]) and any(z in a.deps(s) for u in us for s in u["snaps"])
                            for z, t in enumerate(a.n)) for i in (0, 1)):
                    continue        # both parts are used
                c.violate("%s|%s|%s" % (tool, a.fn(b), e["last"]), a.where(b), "%s%s: %s leaves out a part of the text" % (tool, opt, e["last"]))
        if e["last"] in PARTIAL and own and not (e["last"] == "take" and e["atys"][0].startswith("&mut")):
            src = a.n[a.strip(e["snaps"][0])]
            if src[0] == "call" and src[2].split("::")[-1] in ("iter", "into_iter", "copied", "cloned", "bytes") and src[3]:
                y = a.n[a.strip(src[3][0])]
                z = a.strip(src[3][0])
                while a.n[z][0] == "call" and a.n[z][2].split("::")[-1] in ("iter", "into_iter", "copied", "cloned"):
                    z = a.strip(a.n[z][3][0])
                if read_trails(a, z):
                    c.violate("%s|%s|%s" % (tool, a.fn(b), e["last"]), a.where(b), "%s%s: %s drops a part of the text" % (tool, opt, e["last"]))
    c.sample("%s%s: %d uses after %s" % (tool, opt, n, spell(want)))
    return n
