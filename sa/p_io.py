"""Where the bytes come from and where they go: C03 .. C06."""
import itertools
import re
from common import *
from reg import prop
from paths import lin
from props import READ, CREATE, sink_roots, writer_arg, write_events

SOME = lambda adt="std::option::Option": ("variant", adt, 1, "Some", 1)
NONE = ("variant", "std::option::Option", 0, "None", 0)
U64 = 2**64 - 1


def is_create(a, e):
    nm = e["name"]
    if isname(nm, "File::create", "File::create_new", "fs::write", "fs::copy", "fs::rename", "fs::remove_file", "File::set_len"):
        return True
    if isname(nm, "OpenOptions::open"):
        opts = {x[2].split("::")[-1]: a.g.cval(x[3][1]) for x in a.depcalls(e["snaps"][0])
                if "OpenOptions" in x[2] and len(x[3]) == 2}
        return bool(opts.get("write", 0) or opts.get("append", 0)) or any(
            k in opts and opts[k] is None for k in ("write", "append", "create", "truncate"))
    return False


def is_open(a, e):
    nm = e["name"]
    if isname(nm, "File::open", "fs::read", "fs::read_to_string"):
        return True
    return isname(nm, "OpenOptions::open") and not is_create(a, e)


BULK = ("read_to_end", "read_to_string")
STREAMING = ("escape", "rle", "mtf", "count_runs")


def is_bulk(e):
    return isname(e["name"], "fs::read", "fs::read_to_string") or \
        (e["last"] in BULK and ("io::" in e["name"]))


def io_calls(a):
    return [e for e in a.evs(log=True) if READ.search(e["name"]) or isname(e["name"], "io::stdin", "io::stdio::stdin")]


def args_only(a, cond):
    """does a condition depend on the command line alone?"""
    deps = a.deps(cond)
    has = False
    for x in deps:
        t = a.n[x]
        if t[0] == "call":
            if a.g.is_parse(t) or "get_one" in t[2] or "get_matches" in t[2]:
                has = True
            elif READ.search(t[2]) or "Instant" in t[2] or "stdin" in t[2] or "rand" in t[2] or isname(
                    t[2], "File::create", "File::create_new", "File::open", "OpenOptions::open") or "std::fs::" in t[2]:
                return False        # the outcome of an operation on the system is not the command line alone
        elif t[0] == "sym":
            has = True
    return has


def fails(a, s):
    """does s lead to a panic or a failing exit?"""
    return any(a.term.get(x, ("",))[0] in ("panic", "exit", "noreturn") for x in a.reach_from(s) | {s})


def validation_branches(a):
    """branches on the command line alone of which one side only fails"""
    out = {}
    for b in a.reached:
        if b not in a.g.cond or len(a.succ[b]) < 2 or a.flat.blocks[b].t["k"] != "switch":
            continue
        if b not in a.normal or a.fn(b).split("::")[0].lstrip("<") != a.root.split("::")[0] and inloop(a, b):
            continue
        bad = [s for s in a.succ[b] if s not in a.normal and fails(a, s)]
        if bad and args_only(a, a.g.cond[b]):
            out[b] = bad
    return out


@prop("C03", "typestate over all feasible paths of every tool: once an output file has been created or truncated, no input is opened, no "
      "whole-input read is performed (tools that load their input), and no branch that rejects the command line (a condition depending on "
      "parsed arguments only, with a side from which the program cannot end normally) is reached")
def c03(c):
    n = 0
    for prof in c.profiles():
        for tool in c.tools(prof):
            a = c.A(tool, profile=prof)
            ex = c.explorer(a)
            cr = {e["block"] for e in a.evs(log=True) if is_create(a, e)}
            n += len(cr)
            if not cr:
                continue
            opens = {e["block"]: e for e in a.evs(log=True) if is_open(a, e)}
            bulk = {e["block"]: e for e in a.evs(log=True) if is_bulk(e)} if tool not in STREAMING else {}
            val = validation_branches(a)
            c.ok(len(cr), "creations")
            c.ok(len(opens) + len(bulk) + len(val), "inputs and validations")
            c.sample("%s: %d creations, %d opens, %d bulk reads, %d argument checks" % (tool, len(cr), len(opens), len(bulk), len(val)))

            def step(b, au, env):
                if au and (b in opens or b in bulk):
                    e = opens.get(b) or bulk[b]
                    c.violate("%s|%s|%s" % (tool, a.fn(b), e["name"]), a.where(b),
                              "%s: %s happens after the output file has been created at %s" % (tool, e["name"], a.where(au)))
                    return None
                if au and b in val:
                    c.violate("%s|%s|validation" % (tool, a.fn(b)), a.where(b),
                              "%s: the command line is rejected here after the output file has been created at %s" % (tool, a.where(au)))
                    return None
                return b if b in cr else au
            ex.run(a.entry, 0, step)
    c.floor("file creations in all tools", n, 8)


# ------------------------------------------------------------------------------------------------ C04 / C05
CONV = {"new", "as_ref", "as_path", "as_str", "from", "into", "to_path_buf", "to_owned", "to_string", "clone", "as_os_str", "deref",
        "borrow", "to_os_string", "into_os_string", "into_boxed_path", "as_deref", "into_path_buf", "as_mut", "cloned", "unwrap",
        "must_use", "to_str", "as_deref_mut", "map", "and_then", "expect"}


def plain_source(a, n, d=0):
    """the value a path argument is a mere conversion of"""
    while d < 40:
        d += 1
        t = a.n[n]
        if t[0] in ("at", "with"):
            n = t[1]
        elif t[0] == "load":
            n = t[2][0] if len(t[2]) == 1 else t[1]
        elif t[0] == "cast":
            n = t[3]
        elif t[0] == "call" and t[2].split("::")[-1] in CONV and t[3] and not a.g.is_parse(t):
            n = t[3][0]
        elif t[0] == "phi":
            ops = {plain_source(a, o, d + 1) for o in a.g.phi_ops(n) if o != n}
            ops.discard(None)
            return ops.pop() if len(ops) == 1 else n
        else:
            return n
    return n


def is_field(a, n, name):
    """is n (the payload of) the command line field?"""
    t = a.n[n]
    if t[0] == "sym" and t[1] == name:
        return True
    while t[0] in ("proj", "at", "with"):
        if t[0] == "proj" and len(t[2]) > 2 and t[2][2] == name:
            b = t
            while b[0] == "proj":
                b = a.n[b[1]]
            return b[0] == "call" and a.g.is_parse(b)
        t = a.n[t[1]]
    return t[0] == "sym" and t[1] == name


def optfields(c):
    """tool -> fields of its Args"""
    return {t: argfields(c, t) for t in c.tools()}


@prop("C04", "each tool is analysed twice, with the input option known to be present and known to be absent: with it, no handle of standard "
      "input is taken and every file opened for reading is named by exactly that option (only conversions in between); without it, no file "
      "is opened; and for every option-carrying tool a read happens in both cases with the same read operations")
def c04(c):
    n = 0
    for prof in c.profiles():
        for tool in c.tools(prof):
            fields = argfields(c, tool)
            if "infilename" not in fields:
                a = c.A(tool, profile=prof)
                for e in a.evs(log=True):
                    if is_open(a, e) or isname(e["name"], "io::stdin", "io::stdio::stdin"):
                        c.violate("%s|%s|%s" % (tool, a.fn(e["block"]), e["name"]), a.where(e["block"]),
                                  "%s has no input option but reads %s" % (tool, e["name"]))
                continue
            n += 1
            a = c.A(tool, {"infilename": SOME()}, profile=prof)
            opened = 0
            for e in a.evs(log=True):
                b = e["block"]
                if b not in a.normal:
                    continue
                if isname(e["name"], "io::stdin", "io::stdio::stdin"):
                    c.violate("%s|%s|stdin" % (tool, a.fn(b)), a.where(b), "%s: standard input is used although a file is named" % tool)
                if is_open(a, e):
                    opened += 1
                    c.ok(1, "opens")
                    src = plain_source(a, e["snaps"][-1 if isname(e["name"], "OpenOptions::open") else 0])
                    c.sample("%s: %s of %s" % (tool, e["name"], a.g.show(src, 3)))
                    if not is_field(a, src, "infilename"):
                        c.violate("%s|%s|path" % (tool, a.fn(b)), a.where(b),
                                  "%s: the file opened here is not exactly the one named by the input option" % tool)
            if not opened:
                c.violate("%s|no-open" % tool, tool + "::main", "%s: no file is opened although one is named" % tool)
            a = c.A(tool, {"infilename": NONE}, profile=prof)
            std = 0
            for e in a.evs(log=True):
                b = e["block"]
                if b not in a.normal:
                    continue
                if isname(e["name"], "io::stdin", "io::stdio::stdin"):
                    std += 1
                    c.ok(1, "standard inputs")
                if is_open(a, e):
                    c.violate("%s|%s|open" % (tool, a.fn(b)), a.where(b), "%s: a file is opened although none is named" % tool)
            if not std:
                c.violate("%s|no-stdin" % tool, tool + "::main", "%s: standard input is not read although no file is named" % tool)
    c.floor("tools with an input option", n, 8)


DATA_TO_OUT = ("bwt", "reverse", "mtf", "rle", "escape", "word", "randomstring", "lyndonwords")


@prop("C05", "each tool with an output option is analysed with the option known to be present and known to be absent: with it, exactly the "
      "named file is created and no transformed data is written to standard output; without it, no file is created and the sinks of all "
      "writes are standard output")
def c05(c):
    n = 0
    for prof in c.profiles():
        for tool in c.tools(prof):
            fields = argfields(c, tool)
            if "outfilename" not in fields:
                a = c.A(tool, profile=prof)
                for e in a.evs(log=True):
                    if is_create(a, e):
                        c.violate("%s|%s|%s" % (tool, a.fn(e["block"]), e["name"]), a.where(e["block"]),
                                  "%s has no output option but touches a file" % tool)
                continue
            n += 1
            for which, seed in (("named", SOME()), ("none", NONE)):
                a = c.A(tool, {"outfilename": seed}, profile=prof)
                created, wrote = 0, 0
                for e in a.evs(log=False):
                    b = e["block"]
                    if b not in a.normal:
                        continue
                    key = "%s|%s|%s|%s" % (tool, which, a.fn(b), e["name"])
                    if is_create(a, e):
                        c.ok(1, "creations")
                        created += 1
                        if which == "none":
                            c.violate(key, a.where(b), "%s: a file is created although none is named" % tool)
                        else:
                            src = plain_source(a, e["snaps"][-1 if isname(e["name"], "OpenOptions::open") else 0])
                            c.sample("%s: %s of %s" % (tool, e["name"], a.g.show(src, 3)))
                            if not is_field(a, src, "outfilename"):
                                c.violate(key + "|path", a.where(b),
                                          "%s: the file created here is not exactly the one named by the output option" % tool)
                    isw = "io::Write::" in e["name"] or "io::Write" in e["fun"].get("trait", "")
                    if isw and e["last"] in ("write_all", "write", "write_fmt", "write_vectored"):
                        c.ok(1, "writes")
                        wrote += 1
                        ks = {k for k, _ in sink_roots(a, writer_arg(a, e))} - {"buf"}
                        if "memory" in ks or "stderr" in ks:
                            continue
                        if which == "named" and "stdout" in ks and tool in DATA_TO_OUT:
                            c.violate(key + "|stdout", a.where(b), "%s: data goes to standard output although a file is named" % tool)
                        if which == "none" and "file" in ks:
                            c.violate(key + "|file", a.where(b), "%s: data goes to a file although none is named" % tool)
                    if e["last"] == "_print" and "io::" in e["name"] and tool in DATA_TO_OUT:
                        wrote += 1
                        if which == "named":
                            c.violate(key + "|print", a.where(b), "%s: data is printed although a file is named" % tool)
                if which == "named" and not created:
                    c.violate("%s|no-create" % tool, tool + "::main", "%s: the named output file is never created" % tool)
                if (which == "named" or tool in DATA_TO_OUT) and not wrote:
                    c.violate("%s|%s|no-write" % (tool, which), tool + "::main", "%s: nothing is written" % tool)
            # whatever the switches say, something is written
            flags = sorted(k for k, ty in fields.items() if ty == "bool")
            for vals in itertools.product((0, 1), repeat=len(flags)) if tool in DATA_TO_OUT and 0 < len(flags) < 4 else ():
                a = c.A(tool, {k: ("const", "bool", v) for k, v in zip(flags, vals)}, profile=prof)
                said = ", ".join("%s=%s" % (k, bool(v)) for k, v in zip(flags, vals))
                c.ok(1, "settings of switches")
                if not any(e["block"] in a.normal and (e["last"] in ("write_all", "write", "write_fmt", "write_vectored", "_print", "copy")) for e in a.evs(log=False)):
                    c.violate("%s|%s|no-write" % (tool, said), tool + "::main", "%s: with %s nothing is written" % (tool, said))
    c.floor("tools with an output option", n, 7)


# ------------------------------------------------------------------------------------------------ C06
LIMIT = {"take", "truncate", "split_off", "drain", "set_len", "resize", "set_limit", "split_at", "split_to", "step_by", "skip"}


def reader_chain(a, n):
    """calls through which a reader value is obtained: [(name, block, args)]"""
    out, todo, seen = [], [n], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        t = a.n[x]
        if t[0] == "call":
            out.append(t)
            todo += t[3][-1:] if t[2].split("::")[-1] == "with_capacity" else t[3][:1]
        elif t[0] == "eff":
            todo.append(t[3])
        elif t[0] in ("at", "proj"):
            todo.append(t[1])
        elif t[0] == "with":
            todo += [t[1]] + list(t[2])
        elif t[0] == "phi":
            todo += a.g.phi_ops(x)
        elif t[0] == "load":
            todo += [t[1]] + list(t[2])
        elif t[0] == "agg":
            todo += list(t[2])
    return out


def onebyte(a, e):
    """is the buffer of a read call a single byte?"""
    for s in e["snaps"][1:]:
        x = a.strip(s)
        while a.n[x][0] == "eff":
            x = a.strip(a.n[x][3])
        t = a.n[x]
        if t[0] == "agg" and t[1][0] == "array" and len(t[2]) == 1:
            return True
        if t[0] == "repeat" and t[2] == 1:
            return True
        if t[0] == "phi":
            return all(a.n[a.strip(o)][0] in ("agg", "eff", "phi", "repeat") for o in a.g.phi_ops(x))
    return False


def exactly(a, n, name, d=0):
    n = a.widened(n)
    t = a.n[n]
    if t[0] == "call" and t[2].split("::")[-1] in ("from", "into", "try_into", "try_from", "unwrap") and len(t[3]) == 1:
        return exactly(a, t[3][0], name, d)
    if t[0] == "proj":
        return exactly(a, t[1], name, d)
    if t[0] == "phi" and d < 4:
        # the same number, or a constant where the number is known to be that constant
        ins = a.g.phis.get((t[1], t[2]), {})
        ok = 0
        for p, o in ins.items():
            if exactly(a, o, name, d + 1):
                ok += 1
                continue
            k = a.g.cval(o)
            if k is None or not any(a.n[c][0] == "op" and a.n[c][1] == "Eq" and v == 1 and k in (a.g.cval(a.n[c][3]), a.g.cval(a.n[c][4])) and
                                    any(exactly(a, y, name, d + 1) for y in a.n[c][3:5]) or
                                    v == k and exactly(a, c, name, d + 1) for c, v in a.facts(p)):
                return False
        return ok > 0
    return t[0] == "sym" and t[1] == name


def loop_limited(a, b, name):
    """None if the read in block b is executed at most `name` times in its loop, else the reason"""
    idom = a.dom()
    x = b
    while x != a.entry:
        p = idom[x]
        if p in a.g.cond and len(a.succ[p]) > 1:
            cond = a.g.cond[p]
            t = a.n[cond]
            if t[0] == "discr":
                it = a.n[t[1]]
                if it[0] == "call" and it[2].split("::")[-1] == "next":
                    r = range_of(a, it[3][0])
                    if r is not None:
                        lo, hi, incl = r
                        if exactly(a, hi, name):
                            if a.g.cval(lo) == 0 and not incl:
                                return None
                            return "the number of symbols read is off"
            if t[0] == "op" and t[1] in ("Lt", "Le", "Eq", "Ne"):
                for k, y in ((3, 4), (4, 3)):
                    if exactly(a, t[y], name):
                        ph = a.n[t[k]]
                        if ph[0] == "phi":
                            init = [a.g.cval(o) for o in a.g.phi_ops(t[k]) if a.g.cval(o) is not None]
                            if t[1] in ("Lt", "Le") and init == [0]:
                                # i < n  continues, or  n <= i stops
                                good = (t[1] == "Lt" and k == 3) or (t[1] == "Le" and k == 4)
                                return None if good else "the number of symbols read is off"
                        return None
                for k, y in ((3, 4), (4, 3)):
                    if a.n[t[k]][0] == "phi" and a.g.cval(t[y]) in (0, 1):
                        r = countdown(a, t[k], name)
                        if r is None:
                            continue
                        z = a.g.cval(t[y])
                        # going on for  r > 0,  r != 0,  r >= 1;  as far as the form of the test tells
                        good = (z == 0 and t[1] in ("Eq", "Ne")) or (t[1], k, z) in (("Lt", 4, 0), ("Le", 3, 0), ("Le", 4, 1), ("Lt", 3, 1))
                        return None if good and r else "the number of symbols read is off"
        x = p
    return "no bound by the prefix length"


def piece_limited(a, e, name):
    """a read into a piece of a buffer that is at most as long as what is left of the prefix: buf[..min(.., N - got so far)]"""
    if e["last"] != "read" or len(e["snaps"]) < 2:
        return False
    x = a.strip(e["snaps"][1])
    while a.n[x][0] in ("eff", "at", "with", "proj"):
        x = a.strip(a.n[x][3] if a.n[x][0] == "eff" else a.n[x][1])
    t = a.n[x]
    if t[0] == "slice":
        r = a.n[a.strip(t[2])]
    elif t[0] == "call" and t[2].split("::")[-1] in ("index", "index_mut") and len(t[3]) > 1:
        r = a.n[a.strip(t[3][1])]
    else:
        return False
    if r[0] != "agg":
        return False
    if r[1][1].endswith("RangeTo"):
        end = r[2][0]
    elif r[1][1].endswith("ops::Range") and a.g.cval(r[2][0]) == 0:
        end = r[2][1]
    else:
        return False

    def left(y, seen):
        """N - (what has been read)"""
        y = a.strip(y)
        if y in seen:
            return True
        seen = seen | {y}
        u = a.n[y]
        if u[0] == "op" and u[1] == "min":
            return left(u[3], seen) or left(u[4], seen)
        if u[0] == "call" and u[2].split("::")[-1] == "saturating_sub" and len(u[3]) == 2:
            return exactly(a, u[3][0], name) and e["node"] in a.deps(u[3][1])
        if u[0] == "op" and u[1] == "Sub":
            if exactly(a, u[3], name):
                return e["node"] in a.deps(u[4])
            return a.n[a.strip(u[3])][0] == "phi" and left(u[3], seen) and e["node"] in a.deps(u[4])
        if exactly(a, y, name):
            return bool(seen - {y})         # the start of a count down, not the length of each piece
        if u[0] == "phi":
            ops = [z for z in a.g.phi_ops(y) if z != y]
            return bool(ops) and all(left(z, seen) for z in ops) and not all(exactly(a, z, name) for z in ops)
        return False
    return left(end, frozenset())


def countdown(a, ph, name):
    """does the joined value start at `name` and go down by one a round? None: it is not a counter of that kind, False: it starts elsewhere"""
    start, down, seen, todo = [], 0, {ph}, list(a.g.phi_ops(ph))
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        t = a.n[a.strip(x)]
        if t[0] == "phi":
            todo += a.g.phi_ops(a.strip(x))
        elif t[0] == "op" and t[1] == "Sub" and a.strip(t[3]) in seen and a.g.cval(t[4]) == 1:
            down += 1
        else:
            start.append(x)
    if not down or not start:
        return None
    return all(exactly(a, x, name) for x in start)


def range_of(a, n):
    """(lo, hi, inclusive) of an iterator over an integer range, through phis and effects"""
    seen, todo, res = set(), [n], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        t = a.n[x]
        if t[0] in ("at", "with"):
            todo.append(t[1])
        elif t[0] == "phi":
            todo += a.g.phi_ops(x)
        elif t[0] == "eff":
            todo.append(t[3])
        elif t[0] == "agg" and t[1][1].endswith("ops::Range"):
            res.add((t[2][0], t[2][1], False))
        elif t[0] == "call" and t[2].split("::")[-1] == "new" and "RangeInclusive" in t[2]:
            res.add((t[3][0], t[3][1], True))
        elif t[0] == "call" and t[2].split("::")[-1] == "into_iter":
            todo.append(t[3][0])
        elif t[0] == "agg" or t[0] == "call":
            return None
    return res.pop() if len(res) == 1 else None


def later_limit(a, e, name):
    """is the buffer filled by e cut to the prefix length afterwards, on every way on?"""
    cuts = {x["block"] for x in a.evs(log=True) if x["last"] == "truncate" and len(x["snaps"]) == 2 and exactly(a, x["snaps"][1], name)}
    if not cuts:
        return False
    seen, todo = set(), list(a.succ[e["block"]])
    while todo:
        b = todo.pop()
        if b in seen or b in cuts:
            continue
        seen.add(b)
        if b in a.normal_ends:
            return False
        todo += a.succ[b]
    return True


@prop("C06", "every tool with a prefix option is analysed with the option known to be 0 and known to be positive (crossed with file / standard "
      "input): with 0 no read is limited and no text is cut; with N > 0 every read is limited by exactly N (a take, a later truncate, or a loop "
      "from 0 to N exclusive); whole reads are loops to the end of input, not single calls whose count is taken for the length, and not sized "
      "by file metadata")
def c06(c):
    n = 0
    for prof in c.profiles():
        for tool in c.tools(prof):
            if "prefixlength" not in argfields(c, tool) or "infilename" not in argfields(c, tool):
                continue
            n += 1
            for iname, iseed in (("file", SOME()), ("stdin", NONE)):
                for pname, pseed in (("0", ("const", "usize", 0)), ("N", (1, U64))):
                    a = c.A(tool, {"infilename": iseed, "prefixlength": pseed}, profile=prof)
                    reads = 0
                    streaming = tool in STREAMING
                    for e in a.evs(log=True):
                        b = e["block"]
                        if b not in a.normal:
                            continue
                        isread = "io::Read::" in e["name"] or "io::BufRead::" in e["name"] or isname(e["name"], "fs::read", "io::copy")
                        if not isread or e["last"] in ("take", "by_ref", "bytes", "chain") or not e["snaps"]:
                            continue
                        if "[u8]" in e["self"]:
                            continue
                        key = "%s|%s|p=%s|%s|%s" % (tool, iname, pname, a.fn(b), e["last"])
                        chain = reader_chain(a, e["snaps"][0]) if not isname(e["name"], "fs::read") else []
                        if chain and not any(isname(x[2], "File::open", "OpenOptions::open", "io::stdin", "io::stdio::stdin") for x in chain):
                            continue        # reads from memory
                        reads += 1
                        c.ok(1, "reads")
                        limits = [x for x in chain if x[2].split("::")[-1] in LIMIT]
                        if pname == "0":
                            limits = [x for x in limits if not (x[2].split("::")[-1] == "take" and (a.g.cval(x[3][1]) or 0) >= 2**62)]
                            if limits:
                                c.violate(key + "|limited", a.where(b), "%s: the read is limited although no prefix is asked for" % tool)
                        else:
                            ok = any(x[2].split("::")[-1] == "take" and exactly(a, x[3][1], "prefixlength") for x in limits)
                            if limits and not ok:
                                c.violate(key + "|limit", a.where(b), "%s: the read is not limited by exactly the prefix length" % tool)
                            if not limits:
                                if e["last"] == "read" and inloop(a, b) or streaming:
                                    if not streaming_nested(a, b) and not piece_limited(a, e, "prefixlength"):
                                        why = loop_limited(a, b, "prefixlength")
                                        if why:
                                            c.violate(key + "|loop", a.where(b), "%s: %s" % (tool, why))
                                elif not later_limit(a, e, "prefixlength"):
                                    c.violate(key + "|unlimited", a.where(b), "%s: more than the prefix is read and kept" % tool)
                        if e["last"] == "read" and not inloop(a, b) and not onebyte(a, e) and not isname(e["name"], "fs::read"):
                            c.violate(key + "|short", a.where(b), "%s: one call of read may deliver less than there is" % tool)
                        if e["last"] == "read_exact" and not onebyte(a, e):
                            c.violate(key + "|exact", a.where(b), "%s: read_exact fails if the input is shorter, or stops before its end" % tool)
                        for s in e["snaps"]:
                            if any(x[2].split("::")[-1] in ("metadata", "file_size") for x in a.depcalls(s)) and e["last"] != "read_to_end":
                                c.violate(key + "|meta", a.where(b), "%s: the amount read depends on file metadata" % tool)
                    cuts = [e for e in a.evs() if e["last"] in ("truncate", "split_off", "drain", "set_len", "resize") and e["block"] in a.normal
                            and e["snaps"] and from_input(a, e["snaps"][0])]
                    for e in cuts:
                        c.ok(1, "cuts")
                        if e["last"] == "resize" and len(e["snaps"]) > 1:
                            k, off = lin(a, e["snaps"][1])
                            if off >= 0 and len(k) == 1 and set(k.values()) == {1} and a.n[next(iter(k))][0] == "len":
                                continue        # it grows
                        if pname == "0" or not (len(e["snaps"]) > 1 and exactly(a, e["snaps"][1], "prefixlength")):
                            c.violate("%s|%s|p=%s|%s|cut" % (tool, iname, pname, a.fn(e["block"])), a.where(e["block"]),
                                      "%s: the text is cut" % tool)
                    c.sample("%s from %s with prefix %s: %d reads" % (tool, iname, pname, reads))
                    if not reads:
                        c.violate("%s|%s|p=%s|no-read" % (tool, iname, pname), tool + "::main", "%s: nothing is read" % tool)
    c.floor("tools with a prefix option", n, 6)


def streaming_nested(a, b):
    """a read directly depending on another read of the same round (the symbol after an escape symbol)"""
    for cond, v in a.facts(b):
        for x in a.deps(cond):
            t = a.n[x]
            if t[0] == "call" and t[2].endswith("Read::read") and t[1] != b and a.dominates(t[1], b):
                ev = a.n[cond]
                if ev[0] == "op" and ev[1] in ("Eq", "Ne"):
                    return True
    return False


def from_input(a, n):
    """is n the buffer filled by a read (through effects and joins only)?"""
    seen, todo = set(), [n]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        t = a.n[x]
        if t[0] in ("at", "with"):
            todo.append(t[1])
        elif t[0] == "phi":
            todo += a.g.phi_ops(x)
        elif t[0] == "eff":
            ct = a.n[t[1]]
            if ct[0] == "call" and ("io::Read::" in ct[2]) and t[2] > 0:
                return True
            todo.append(t[3])
        elif t[0] == "call" and isname(t[2], "fs::read"):
            return True
        elif t[0] in ("upd", "store", "wstore", "proj"):
            todo.append(t[1])
    return False
