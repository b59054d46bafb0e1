import re
from common import *
from reg import PROPS, prop


# ------------------------------------------------------------------------------------------------ C01
READ = re.compile(r"::io::(Read|BufRead)::|fs::File::open|fs::(read|read_to_string|metadata|File::metadata)$|io::(read_to_string|copy)$")


def read_events(a):
    """(block, node, type, name) of every fallible operation on the input side"""
    for e in a.evs(log=True):
        ty = e["dty"]
        if not io_result(ty) or e.get("modeled"):
            continue
        nm = e["name"]
        if READ.search(nm) or nm.endswith("OpenOptions::open") or e["last"] in ("metadata", "seek", "stream_position") \
                or ("Iterator" in nm):
            yield e["block"], e["node"], ty, nm
    for b in sorted(a.reached):
        for ev in a.g.trace.get(b, ()):
            if ev[0] == "set" and a.n[ev[2]][0] == "hofarg" and io_result(ev[3]["p"].get("ty", "")):
                yield b, ev[2], ev[3]["p"]["ty"], "closure argument"


SWALLOW = re.compile(r"Result::<.*>::(ok|is_ok|unwrap_or_default|unwrap_or|is_err|err|iter|into_iter)$|Result::(ok|is_ok|unwrap_or_default)$")


@prop("C01", "for every call that reads or opens an input (any operation returning Result<_, io::Error> on the input side, in every tool, "
      "in the context of the caller) a path-sensitive forward analysis over the flattened MIR value graph starts with the fact 'the result "
      "is Err (of a kind nothing names)' and must not reach an ending of the program with status 0; iterators over io::Result must not be "
      "passed to adaptors that drop errors")
def c01(c):
    n = 0
    for prof in c.profiles():
        for tool in c.tools(prof):
            a = c.A(tool, profile=prof)
            ex = c.explorer(a, end_extras(a))
            caught(c, a, ex, tool, [r[0] for r in read_events(a)], "a failed read")
            for b, node, ty, nm in read_events(a):
                n += 1
                c.ok(1, "read sites")
                bad = failure_escapes(c, a, ex, b, node, ty)
                c.sample("%s: %s at %s" % (tool, nm, a.where(b)))
                if bad is not None:
                    c.violate("%s|%s|%s" % (tool, a.fn(b), nm), a.where(b),
                              "%s: the program ends successfully although %s failed" % (tool, nm), bad)
            for e in a.evs(log=True):
                tys = " ".join(e["atys"]) + " " + e["self"]
                if not re.search(r"io::(Bytes|Lines|Split)<", tys) or re.search(r"io::(Bytes|Lines|Split)<&\[u8\]>", tys):
                    continue
                c.ok(1, "adaptors over io results")
                drop = e["last"] in ("flatten", "count", "last", "nth", "skip_while", "flat_map") or \
                    any(a.n[x][0] == "fn" and SWALLOW.search(a.n[x][1]) for x in e["args"])
                if drop:
                    c.violate("%s|%s|%s" % (tool, a.fn(e["block"]), e["name"]), a.where(e["block"]),
                              "%s: %s drops the errors of the reads" % (tool, e["name"]))
    c.floor("read sites in all tools", n, 20)


# ------------------------------------------------------------------------------------------------ C02
def write_events(a):
    for e in a.evs(log=True):
        if e.get("modeled") or not io_result(e["dty"]):
            continue
        if READ.search(e["name"]) or "Iterator" in e["name"]:
            continue
        yield e


CREATE = ("File::create", "File::create_new", "OpenOptions::open")


def sink_roots(a, n):
    """creation calls a writer value comes from: {(kind, block)}"""
    out, seen, todo = set(), set(), [n]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        t = a.n[x]
        if t[0] == "call":
            nm = t[2]
            if isname(nm, *CREATE):
                out.add(("file", t[1]))
                continue
            if isname(nm, "io::stdout", "io::stdio::stdout"):
                out.add(("stdout", t[1]))
                continue
            if isname(nm, "io::stderr", "io::stdio::stderr"):
                out.add(("stderr", t[1]))
                continue
            if re.search(r"(BufWriter|LineWriter)::(new|with_capacity)$", nm):
                out.add(("buf", t[1]))
                continue
            if re.search(r"Vec::(new|with_capacity)$|from_elem$|String::new$", nm):
                out.add(("memory", t[1]))
                continue
            todo += [y for y in t[3]]
        elif t[0] == "eff":
            todo.append(t[3])
        elif t[0] == "proj":
            todo.append(t[1])
        elif t[0] in ("at", "with"):
            todo.append(t[1])
            if t[0] == "with":
                todo += list(t[2])
        elif t[0] == "ref":
            pass
        else:
            todo += a.ops(x)
    return out


def ends_newline(a, e):
    """does the written text surely end with a newline?"""
    parts = None
    if e["last"] in ("write_fmt", "_print"):
        parts = a.fmt(e["args"][-1])
    elif e["last"] in ("write_all", "write"):
        parts = a.strparts(e["snaps"][1])
        if parts is None:
            b = a.g.cbytes(a.strip(e["snaps"][1]))
            if b is not None:
                parts = [("lit", b)]
            else:
                t = a.n[a.strip(e["snaps"][1])]
                if t[0] == "agg" and t[1][0] == "array" and t[2] and a.g.cval(t[2][-1]) == 10:
                    return True
                if newline_added(a, e["snaps"][1]):
                    return True
    if parts and parts[-1][0] == "arg" and all(k[0] == "lit" for k in parts[:-1]) and newline_added(a, parts[-1][1]):
        return True
    return bool(parts) and parts[-1][0] == "lit" and parts[-1][1].endswith(b"\n")


def newline_added(a, n, seen=()):
    """a vector or text to which a newline has been added last (or that is empty still)"""
    t = a.n[a.strip(n)]
    for _ in range(20):
        if t[0] not in ("at", "with", "load"):
            if t[0] == "call" and t[2].split("::")[-1] in ("deref", "as_bytes", "as_str", "as_slice", "borrow", "as_ref", "into_bytes") and t[3]:
                t = a.n[a.strip(t[3][0])]
                continue
            break
        t = a.n[t[1]]
    if t[0] == "phi":
        if t in seen:
            return True
        ins = set(a.g.phis.get((t[1], t[2]), {}).values())
        new = lambda x: a.n[a.strip(x)][0] == "call" and a.n[a.strip(x)][2].split("::")[-1] in ("new", "with_capacity") and not a.g.cbytes(a.strip(x))
        return bool(ins) and not all(new(x) for x in ins) and all(new(x) or newline_added(a, x, seen + (t,)) for x in ins)
    if t[0] != "eff":
        return False
    k = a.n[t[1]]
    if k[0] == "call" and t[2] == 0 and len(k[3]) > 1:
        if k[2].split("::")[-1] == "push" and a.g.cval(a.strip(k[3][1])) == 10:
            return True
        if k[2].split("::")[-1] in ("extend_from_slice", "push_str"):
            b = a.g.cbytes(a.strip(k[3][1]))
            return b is not None and b.endswith(b"\n")
    return False


def writer_arg(a, e):
    return e["snaps"][0] if e["snaps"] else None


@prop("C02", "(a) every fallible output operation: a path-sensitive forward analysis from 'the result is Err' must not reach an ending with "
      "status 0; (b) no bare Write::write whose count is ignored; (c) typestate of every sink over all feasible paths: a buffering sink is "
      "flushed (checked) and standard output ends with a newline or a flush after the last write before any successful ending; (d) output "
      "files are opened truncating or exclusively")
def c02(c):
    n = 0
    for prof in c.profiles():
        for tool in c.tools(prof):
            a = c.A(tool, profile=prof)
            ex = c.explorer(a, end_extras(a))
            roots = {}
            caught(c, a, ex, tool, [e["block"] for e in write_events(a)], "a failed output operation")
            for e in a.evs(log=True):
                if e["last"] == "spawn" and "thread" in e["name"] and not any(x["last"] == "join" and "JoinHandle" in x["name"] + x["self"] for x in a.evs(log=True)):
                    c.violate("%s|%s|%s" % (tool, a.fn(e["block"]), e["name"]), a.where(e["block"]), "%s: nothing waits for the thread started here" % tool)
            for e in write_events(a):
                n += 1
                c.ok(1, "output operations")
                c.sample("%s: %s at %s" % (tool, e["name"], a.where(e["block"])))
                key = "%s|%s|%s" % (tool, a.fn(e["block"]), e["name"])
                isw = "io::Write::" in e["name"] or ("Write" in e["fun"].get("trait", ""))
                rs = sink_roots(a, writer_arg(a, e)) if isw and e["snaps"] else set()
                if isw and rs and all(k == "stderr" for k, _ in rs):
                    continue
                bad = failure_escapes(c, a, ex, e["block"], e["node"], e["dty"])
                if bad is not None:
                    c.violate(key + "|unchecked", a.where(e["block"]),
                              "%s: the program ends successfully although %s failed" % (tool, e["name"]), bad)
                if isw and e["last"] in ("write", "write_vectored"):
                    used = count_used(a, e["node"])
                    if not used:
                        c.violate(key + "|partial", a.where(e["block"]), "%s: Write::write may write only a part" % tool)
                if isname(e["name"], "OpenOptions::open"):
                    opts = {x[2].split("::")[-1]: a.g.cval(x[3][1]) for x in a.depcalls(e["snaps"][0])
                            if "OpenOptions" in x[2] and len(x[3]) == 2}
                    if opts.get("write") or opts.get("append"):
                        if opts.get("append") or not (opts.get("truncate") or opts.get("create_new")):
                            c.violate(key + "|mode", a.where(e["block"]),
                                      "%s: the output file keeps bytes of its previous content" % tool)
            # typestate
            wr, fl = {}, {}
            for e in a.evs():
                isw = "io::Write::" in e["name"] or "io::Write" in e["fun"].get("trait", "")
                if e["last"] == "_print" and "io::" in e["name"]:
                    wr[e["block"]] = ({("stdout", "std")}, ends_newline(a, e))
                elif isw and e["last"] in ("write_all", "write", "write_fmt", "write_vectored"):
                    rs = sink_roots(a, writer_arg(a, e))
                    wr[e["block"]] = (rs or {("unknown", e["block"])}, ends_newline(a, e))
                elif isw and e["last"] == "flush" or e["last"] in ("sync_all", "into_inner", "sync_data"):
                    fl[e["block"]] = sink_roots(a, writer_arg(a, e))
                elif isname(e["name"], "io::copy"):
                    wr[e["block"]] = (sink_roots(a, e["snaps"][1]), False)

            made = {bl for rs, _ in wr.values() for k, bl in rs if k in ("file", "stdout", "buf") and bl != "std"}
            # (what is not bound to have been opened before: the other sinks are there on every path)
            made = {bl for bl in made if not all(a.dominates(bl, x) for x in wr)}

            def step(b, au, env):
                if is_unwrap_of_failure(a, ex, b, env):
                    return None
                if b in made:
                    au = au | {(("made", b), None, b)}
                if b in wr:
                    rs, nl = wr[b]
                    rs = {r for r in rs if r[1] not in made or (("made", r[1]), None, r[1]) in au}
                    au = frozenset({(r, nl2, bl) for r, nl2, bl in au if r not in rs} | {(r, nl, b) for r in rs})
                elif b in fl:
                    rs = {("stdout", "std") if r[0] == "stdout" else r for r in fl[b]} | fl[b]
                    au = frozenset({x for x in au if x[0] not in rs})
                return au
            for end in ex.run(a.entry, frozenset(), step):
                c.ok(1, "endings")
                if a.term[end[0]][0] not in ("ret", "exit"):
                    continue
                if a.term[end[0]][0] == "ret" and not end_success(a, ex, end):
                    continue                        # the program ends with a failure, which tells that the output is not complete
                for r, nl, bl in end[1]:
                    if r[0] in ("file", "memory", "stderr", "made"):
                        continue
                    if r[0] == "stdout" and nl:
                        continue
                    if a.term[end[0]][0] == "exit" and not end_success(a, ex, end) and r[0] == "stdout":
                        continue
                    c.violate("%s|%s|pending" % (tool, a.fn(bl)), a.where(bl),
                              "%s: what is written here may still be buffered when the program ends" % tool, c.path(a, ex, end[3]))
    c.floor("output operations in all tools", n, 25)


def count_used(a, node):
    """does anything but the distinction of success and failure, and the log, depend on the result `node` of a call?"""
    def dep(x):
        seen, todo = set(), [x]
        while todo:
            x = todo.pop()
            if x == node:
                return True
            if x in seen:
                continue
            seen.add(x)
            t = a.n[x]
            if t[0] == "eff":           # what the call did to its argument is not its result
                todo.append(t[3])
                if a.strip(t[1]) != node:
                    todo += a.ops(t[1])
            elif t[0] == "proj" and t[2][:2] == ("v", 1) and a.strip(t[1]) == node:
                continue                # the error
            elif t[0] != "discr":
                todo += a.ops(x)
        return False
    for b in a.reached:
        for ev in a.g.trace.get(b, ()):
            if ev[0] == "bin" and dep(ev[1]):
                return True
    return any(dep(x) for e in a.events.values() if not e.get("modeled") and not a.islog(e) and e["node"] != node for x in e["snaps"])
