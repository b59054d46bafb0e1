"""C30: the verdict of is_stringattractor, its exit status and what it reports agree"""
from paths import Path
from props import *
from reg import prop


def text_of(a, e):
    """what a formatting or printing call says, arguments left out; constant arguments spelled"""
    if e["last"] in ("_print", "_eprint", "write_fmt", "format"):
        parts = a.fmt(e["args"][-1])
    elif e["last"] in ("write_all", "write", "push_str", "write_str"):
        parts = a.strparts(e["snaps"][-1]) if e["snaps"] else None
        if parts is None and e["snaps"]:
            b = a.g.cbytes(a.strip(e["snaps"][-1]))
            parts = [("lit", b)] if b is not None else None
    else:
        return None
    if not parts:
        return None
    return b"\x00".join(q[1] if isinstance(q[1], bytes) else str(q[1]).encode() for q in parts if q[0] == "lit"), parts


def status(a, ex, end, blocks):
    """the exit status at an ending, None if it is not known"""
    k, x = a.term[end[0]]
    p = Path(a, blocks, end[2])
    if k == "exit":
        x = p.resolve(x)
        v = a.g.cval(x)
        if not isinstance(v, int):
            while a.n[x][0] == "cast":
                x = a.strip(a.n[x][3])
            if a.n[x][0] in ("len", "load", "proj") or a.n[x][0] == "op" and a.n[x][2] != "bool":
                return "a computed number"
            return None
        return v
    if k != "ret":
        return "panic"
    ty = a.flat.local_ty[a.flat.ret_gid]
    v = a.g.instate.get(a.ret, {}).get(a.flat.ret_gid)
    if ty.startswith("std::result::Result"):
        return 0 if end_success(a, ex, end) else 1
    if "ExitCode" not in ty:
        return 0
    t = a.n[a.strip(p.resolve(v))]
    while t[0] == "call" and t[2].split("::")[-1] in ("from", "into") and t[3]:
        n = a.strip(p.resolve(t[3][0]))
        if isinstance(a.g.cval(n), int):
            return a.g.cval(n)
        t = a.n[n]
    if t[0] == "const" and "SUCCESS" in str(t):
        return 0
    if t[0] == "const" and "FAILURE" in str(t):
        return 1
    return None


@prop("C30", "path-sensitive typestate over all feasible paths of is_stringattractor: the automaton records whether an uncovered substring has been "
      "reported and which verdict has been printed; at every ending the two and the exit status must agree")
def c30(c):
    n = 0
    for prof in c.profiles():
        tool = "is_stringattractor"
        if tool not in c.tools(prof):
            continue
        a = c.A(tool, profile=prof)
        said, open_ = {}, False
        for e in a.evs():
            x = text_of(a, e)
            if not x or a.islog(e):
                continue
            x, parts = x
            low = x.lower()
            if chosen(a, parts):
                open_ = True
            k = "report" if b"not covered" in low else "no" if b"not a valid" in low else "yes" if b"valid attractor" in low else None
            if k:
                said[e["block"]] = k
                if e["last"] == "_eprint":
                    c.violate("%s|%s|%s|stderr" % (tool, a.fn(e["block"]), k), a.where(e["block"]), "%s: this goes to standard error, not to standard output" % tool)
        for k, what in (("report", "an uncovered substring is never reported"), ("no", "no text is refused"), ("yes", "no text is accepted")):
            if k not in said.values():
                missing(c, a, tool, k, what)
        ex = c.explorer(a, end_extras(a))

        def step(b, au, env):
            if is_unwrap_of_failure(a, ex, b, env):
                return None
            k = said.get(b)
            if k is None:
                return au
            rep, verdict, late = au
            if k == "report":
                return (1, verdict, late or verdict is not None)
            return (rep, k if verdict is None else "both", late)
        ends = ex.run(a.entry, (0, None, False), step)
        pairs, st = {}, {}
        for end in ends:
            rep, verdict, late = end[1]
            c.ok(1, "endings")
            blocks = ex.path(end[3])
            s = status(a, ex, end, blocks)
            if s == "panic":
                continue
            if open_:
                continue
            if verdict is None:
                if s == 0:
                    c.violate("%s|no-verdict" % tool, a.where(blocks[-2] if len(blocks) > 1 else blocks[0]), "%s: it can end successfully without a verdict" % tool, c.path(a, ex, end[3]))
                continue
            pairs.setdefault((rep, verdict), (end, blocks))
            st.setdefault((verdict, s), (end, blocks))
            if verdict == "both":
                c.violate("%s|both" % tool, tool + "::main", "%s: two verdicts are printed" % tool, c.path(a, ex, end[3]))
            if late:
                c.violate("%s|late" % tool, tool + "::main", "%s: an uncovered substring is reported after the verdict" % tool, c.path(a, ex, end[3]))
        n += len(pairs)
        c.sample("%s: (reported, verdict) at the endings: %s" % (tool, sorted(pairs)))
        if {(0, "yes"), (0, "no"), (1, "yes"), (1, "no")} <= set(pairs):
            c.sample("%s: what the verdict depends on was not understood" % tool)
            c.counts["not decided"] = c.counts.get("not decided", 0) + 1
        else:
            for rep, verdict in sorted(pairs, key=str):
                if verdict in ("yes", "no") and rep != (verdict == "no"):
                    end, blocks = pairs[rep, verdict]
                    if hidden(a, ex, end, blocks, said, verdict):
                        c.sample("%s: what the verdict depends on was not understood" % tool)
                        continue
                    c.violate("%s|%s|%s" % (tool, rep, verdict), tool + "::main", "%s: it can say %r although %s uncovered substring has been reported" % (
                        tool, "valid attractor" if verdict == "yes" else "not a valid attractor", "an" if rep else "no"), c.path(a, ex, end[3]))
        for verdict, s in sorted(st, key=str):
            if verdict in ("yes", "no") and s is not None and s != (0 if verdict == "yes" else 2):
                end, blocks = st[verdict, s]
                c.violate("%s|%s|status%s" % (tool, verdict, s), tool + "::main", "%s: the exit status is %s after %r" % (
                    tool, s, "valid attractor" if verdict == "yes" else "not a valid attractor"), c.path(a, ex, end[3]))
        n += open_
    c.floor("pairs of report and verdict", n, 1)


def chosen(a, parts):
    """the text printed is chosen among constants elsewhere"""
    for q in parts:
        if q[0] == "arg":
            x = a.strip(q[1])
            for o in a.g.phi_ops(x) if a.n[x][0] == "phi" else (x,):
                b = a.g.cbytes(a.strip(o))
                if b is not None and b"attractor" in b:
                    return True
    return False


def hidden(a, ex, end, blocks, said, verdict):
    """does the branch between the verdicts depend on something whose value is not followed (a collection, a changed object)?"""
    other = [b for b, k in said.items() if k in ("yes", "no") and k != verdict]
    v = max((i for i, b in enumerate(blocks) if said.get(b) == verdict), default=None)
    if v is None:
        return True
    states, k = [], end[3]
    while k is not None:
        states.append(k)
        k = ex.parent[k]
    states.reverse()
    unknown = False
    for i in range(v - 1, -1, -1):
        b = blocks[i]
        if b not in a.g.cond or len(a.succ[b]) < 2 or not any(reach(a, s, other, blocks[v]) for s in a.succ[b] if s != blocks[i + 1]):
            continue
        if ex.ev(a.g.cond[b], dict(states[i][2])) is not None:
            return False
        todo, seen = [(a.g.cond[b], False)], set()
        while todo:
            x, kept = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            k = a.n[x][0]
            if k in ("eff", "len", "call", "load", "hofarg", "store", "wstore"):
                unknown = True
            elif k == "op" and a.n[x][1] in ("Eq", "Ne", "Lt", "Le") and kept:
                continue                # the result of a comparison is what has been kept
            else:
                todo += [(o, kept or k == "phi") for o in a.ops(x)]
        if said.get(b) is not None:
            break
    return unknown


def reach(a, s, goals, avoid):
    seen, todo = set(), [s]
    while todo:
        b = todo.pop()
        if b in goals:
            return True
        if b not in seen and b != avoid:
            seen.add(b)
            todo += a.succ[b]
    return False


def missing(c, a, tool, k, what):
    """no call says it: is the text there at all?"""
    words = {"report": b"not covered", "no": b"not a valid", "yes": b"alid attractor"}[k]
    for t in a.n:
        if t[0] == "const" and isinstance(t[2], tuple) and t[2] and t[2][0] in ("bytes", "str"):
            b = bytes(t[2][1]) if t[2][0] == "bytes" else str(t[2][1]).encode()
            if words in b:
                c.sample("%s: %r is said in a way not understood" % (tool, words.decode()))
                return
        elif t[0] == "const" and words.decode() in str(t[2]):
            return
    c.violate("%s|%s|never" % (tool, k), tool + "::main", "%s: %s" % (tool, what))
