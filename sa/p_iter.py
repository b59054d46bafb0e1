"""Exhausted iterators."""
import re
from common import *
from reg import prop
from vg import INT, short


def outcomes(a):
    """(returned value, value of *self) for every way a method returns, as far as the joins can be told apart"""
    rg = a.flat.ret_gid
    st = a.g.instate.get(a.ret)
    if st is None:
        return []
    p = a.g.init[a.flat.params[0]]
    if a.n[p][0] != "ref":
        return None
    cell = a.n[p][1]
    out, seen = [], set()
    todo = [(st.get(rg), st.get(cell))]
    while todo:
        rv, sv = todo.pop()
        if (rv, sv) in seen:
            continue
        seen.add((rv, sv))
        if len(seen) > 4000:
            return None
        tr, ts = a.n[rv], a.n[sv]
        if tr[0] not in ("phi",):
            # the returned value is known: expand the state over what is left, within reason
            if ts[0] == "phi" and len(seen) < 400 and not any(a.dominates(ts[1], q) for q in a.pred.get(ts[1], ())):
                for o in a.g.phi_ops(sv):
                    todo.append((rv, o))
                continue
            out.append((rv, sv))
            continue
        q = tr[1]
        if ts[0] == "phi" and ts[1] != q and a.dominates(q, ts[1]) and not any(a.dominates(ts[1], x) for x in a.pred.get(ts[1], ())):
            for o in a.g.phi_ops(sv):
                todo.append((rv, o))
            continue
        ops = a.g.phis.get((tr[1], tr[2]), {})
        sops = a.g.phis.get((ts[1], ts[2]), {}) if ts[0] == "phi" and ts[1] == q else None
        for pr, o in ops.items():
            if o == rv:
                continue
            s2 = sops.get(pr, sv) if sops is not None else a.g.out.get((pr, q), {}).get(cell, sv)
            todo.append((o, s2))
    return out, cell


def is_none(a, rv):
    """True: None, False: Some, None: unknown"""
    t = a.n[rv]
    if t[0] == "agg" and t[1][1].endswith("option::Option"):
        return t[1][2] == 0
    d = a.g.cval(a.g.discr(rv))
    return None if d is None else d == 0


FUSED = re.compile(r"(std|core)::(ops::Range|ops::RangeInclusive|slice|str|vec|iter)")


def changes(a, sv, base, d=0):
    """{field: constant | '?'} that differ from the state before"""
    if sv == base or d > 8:
        return {}
    t = a.n[sv]
    if t[0] == "upd" and t[2][0] == "f":
        r = changes(a, t[1], base, d + 1)
        v = t[3]
        if v == a.g.proj(base, t[2]):
            r.pop(t[2][2], None)
            return r
        c = a.n[v]
        if c[0] == "const" and isinstance(c[2], int):
            r[t[2][2]] = (c[1], c[2])
        elif c[0] == "eff" and a.n[c[1]][0] == "call" and a.n[c[1]][2].split("::")[-1] in ("next", "next_back", "nth") and \
                FUSED.match(a.events[a.n[c[1]][1]]["self"] or a.n[c[1]][2]):
            r.pop(t[2][2], None)      # an iterator of the standard library that stays exhausted
        else:
            r[t[2][2]] = "?"
        return r
    if t[0] == "phi":
        r = {}
        for o in a.g.phi_ops(sv):
            if o != sv:
                for k, v in changes(a, o, base, d + 1).items():
                    r[k] = v if r.get(k, v) == v else "?"
                # a field that only some of the ways change
        return r if d < 4 else {"?": "?"}
    return {"?": "?"}


@prop("C18", "for every Iterator implementation of the workspace: each way its next() returns None either leaves every field as it was (the same "
      "branches are taken again) or sets fields to constants for which conditional constant propagation of next() finds None on every path "
      "without leaving that state")
def c18(c):
    n = m = 0
    for prof in c.profiles():
        w = c.world(prof)
        its = [f for f in w.fns.values() if f.get("impl_trait", "").endswith("iter::Iterator") and f["id"].endswith("::next")]
        for f in its:
            n += 1
            a = c.A(f["id"], profile=prof)
            where = "%s (%s:%s)" % (f["id"], f["f"], f["ln"])
            r = outcomes(a)
            if not r:
                c.violate("shape|" + f["id"], where, "the state of the iterator is not understood")
                continue
            rs, cell = r
            base = a.g.init[cell]
            nones = 0
            for rv, sv in rs:
                k = is_none(a, rv)
                if k is False:
                    continue
                if k is None:
                    # handed on from elsewhere: nothing of our own state may have changed besides
                    ch = changes(a, sv, base)
                    if any(v == "?" for v in ch.values()) and not handed_on(a, rv):
                        c.violate("handed|" + f["id"], where, "it may return None and change %s: a later call can return Some" % ", ".join(sorted(ch)))
                    continue
                nones += 1
                c.ok(1, "ways to return None")
                ch = changes(a, sv, base)
                c.sample("%s: None with %s" % (f["id"], ch or "the state unchanged"))
                if not ch:
                    continue
                consts = {("*self", x): v for x, v in ch.items() if v != "?"}
                a2 = c.A(f["id"], profile=prof, seeds=consts) if consts else a
                r2 = outcomes(a2)
                bad = not r2 or not r2[0] or not consts
                if not bad:
                    b2 = a2.g.init[r2[1]]
                    for rv2, sv2 in r2[0]:
                        ch2 = {x: v for x, v in changes(a2, sv2, b2).items() if consts.get(("*self", x)) != v}
                        if is_none(a2, rv2) is not True or any(("*self", x) in consts or x == "?" for x in ch2):
                            bad = True
                if bad:
                    c.violate("revives|" + f["id"], where, "after None (with %s) a later call can return Some again" %
                              ", ".join("%s = %s" % (x, v if v == "?" else v[1]) for x, v in sorted(ch.items())))
            m += nones
            if not nones and not any(is_none(a, rv) is None for rv, _ in rs):
                c.violate("endless|" + f["id"], where, "the iterator never returns None")
    c.floor("Iterator implementations", n, 3)
    c.floor("ways to return None", m, 3)


def handed_on(a, rv):
    return any(a.n[x][0] == "call" and a.n[x][2].split("::")[-1] in ("next", "next_back", "nth", "checked_add", "checked_sub") for x in a.deps(rv))


# ------------------------------------------------------------------------------------------------ C23
LEVEL = re.compile(r"(^|::)log::max_level$|__private_api::enabled$|log::Log::enabled$|^log::.*max_level")
OUTPUT = re.compile(r"io::(stdio::)?(_print|_eprint)$|io::Write::|fs::(File|OpenOptions|write|remove|rename|create)|process::(exit|abort)$|"
                    r"io::(Read|BufRead)::|fs::read|io::copy$|env::set_var|Cell::(set|replace|take|swap)$|RefCell::(borrow_mut|replace|take|swap)$")


def postdom(a):
    """immediate postdominators; endings by panic do not count"""
    if hasattr(a, "_pdom"):
        return a._pdom
    ex = -1
    succ = {b: list(a.succ[b]) for b in a.reached}
    for b, (k, x) in a.term.items():
        if k in ("ret", "exit"):
            succ[b] = [ex]
    succ[ex] = []
    pred = {b: [] for b in succ}
    for b, ss in succ.items():
        for s in ss:
            pred[s].append(b)
    from an import domtree
    a._pdom = domtree(ex, pred, succ)
    return a._pdom


def level_nodes(a):
    return {x for x in range(len(a.n)) if a.n[x][0] == "level" or a.n[x][0] == "call" and LEVEL.search(a.n[x][2])}


def uses_of(a, skip):
    """everything that events and branches outside logging depend on"""
    out = set()
    for b in a.reached:
        if b in skip:
            continue
        e = a.events.get(b)
        if e is not None and not e.get("modeled") and not a.islog(e):
            for s in list(e["snaps"]) + list(e["args"]) + list(e.get("hof", ())):
                out |= a.deps(s)
        if b in a.g.cond and len(a.succ[b]) > 1:
            out |= a.deps(a.g.cond[b])
    st = a.g.instate.get(a.ret, {})
    v = st.get(a.flat.ret_gid)
    if v is not None:
        out |= a.deps(v)
    return out


@prop("C23", "every branch whose condition depends on the log level: the blocks it decides about (up to its postdominator) contain no output, input "
      "or exit, and every variable that differs at the join is used by nothing but log messages; no other value depends on the level. Between the "
      "debug and the release build of a function the calls and assignments that change its variables are the same")
def c23(c):
    n = 0
    for prof in ("either",):
        for tool in c.tools(prof):
            a = c.A(tool, profile=prof)
            lv = level_nodes(a)
            pd = postdom(a)
            names = {}
            branches, skip = {}, set()
            todo = True
            while todo:
                # information flow: from the level to branches, to what differs where their arms meet, and on
                todo = False
                for b in sorted(a.reached):
                    if b in branches or b not in a.g.cond or len(a.succ[b]) < 2 or not (a.deps(a.g.cond[b]) & lv):
                        continue
                    j = pd.get(b)
                    reg, work = set(), list(a.succ[b])
                    while work:
                        x = work.pop()
                        if x == j or x in reg:
                            continue
                        reg.add(x)
                        work += a.succ[x]
                    branches[b] = (j, reg)
                    todo = True
                    skip |= reg | {b}
                    ps = [p for p in a.pred.get(j, ()) if p in reg or p == b]
                    for g, ph in a.g.instate.get(j, {}).items():
                        vs = {a.g.out.get((p, j), {}).get(g) for p in ps} - {None, a.g.UNDEF}
                        if len(vs) > 1 and a.n[ph][0] != "const":
                            lv.add(ph)
                            names[ph] = (b, g)
                    if b in reg:
                        # how often a loop runs
                        for x in reg:
                            for g, ph in a.g.instate.get(x, {}).items():
                                if a.n[ph][0] == "phi" and a.n[ph][1] == x:
                                    lv.add(ph)
                                    names[ph] = (b, g)
            for b, (j, reg) in sorted(branches.items()):
                n += 1
                c.ok(1, "branches on the log level")
                if j is None or j == -1:
                    c.violate("%s|%s|ends" % (tool, a.fn(b)), a.where(b), "%s: the log level decides how the program goes on" % tool)
                    continue
                for x in sorted(reg):
                    e = a.events.get(x)
                    if x in a.term and a.term[x][0] in ("ret", "exit"):
                        c.violate("%s|%s|exit" % (tool, a.fn(x)), a.where(x), "%s: the program ends only at certain log levels" % tool)
                    if e is None or a.islog(e) or e.get("modeled"):
                        continue
                    if OUTPUT.search(e["name"]) and not re.search(r"fmt::", e["name"]):
                        if "Write::" in e["name"] and re.search(r"(Vec<u8>|String|Stderr)", e["self"] + " ".join(e["atys"][:1])):
                            continue
                        if e["name"].endswith("_eprint"):
                            continue
                        c.violate("%s|%s|%s" % (tool, a.fn(x), e["name"]), a.where(x), "%s: %s happens only at certain log levels" % (tool, e["name"]))
            used = uses_of(a, skip)
            for ph, (b, g) in sorted(names.items()):
                if ph in used:
                    c.violate("%s|%s|%s" % (tool, a.fn(b), a.flat.local_name[g]), a.where(b),
                              "%s: the value of %s depends on the log level" % (tool, a.flat.local_name[g] or "a variable"))
            # the level as data
            for b in sorted(a.reached - skip):
                e = a.events.get(b)
                if e is None or a.islog(e) or e.get("modeled") or LEVEL.search(e["name"]) or "log::" in e["name"] or "cmp::" in e["name"]:
                    continue
                if any(a.deps(s) & lv for s in e["snaps"]):
                    c.violate("%s|%s|data" % (tool, a.fn(b)), a.where(b), "%s: a value passed to %s depends on the log level" % (tool, e["name"]))
    c.floor("branches on the log level", n, 20)
    debug_only(c)


def changing(f):
    """(what, variable, line) of the calls and assignments that change a named variable of f"""
    refs = {}
    for b in f["blocks"]:
        for s in b["st"]:
            if s["k"] == "=" and s["r"]["k"] == "ref" and s["r"].get("mut") and not s["p"].get("pr"):
                refs.setdefault(s["p"]["l"], []).append(s["r"]["p"])
            if s["k"] == "=" and s["r"]["k"] == "use" and not s["p"].get("pr") and s["r"]["o"][0]["k"] in ("copy", "move"):
                q = s["r"]["o"][0]["p"]
                if not q.get("pr") and str(q.get("ty", "")).startswith("&mut"):
                    refs.setdefault(s["p"]["l"], []).append({"l": q["l"], "pr": [["deref"]]})
    name = lambda l: (f["locals"][l]["n"], f["locals"][l]["at"]) if "n" in f["locals"][l] else None

    def base(p, d=0):
        if name(p["l"]):
            return name(p["l"])
        if d < 6 and any(x[0] == "deref" for x in p.get("pr", ())):
            for q in refs.get(p["l"], ()):
                r = base(q, d + 1)
                if r:
                    return r
        return None
    out = set()
    for b in f["blocks"]:
        for s in b["st"]:
            if s["k"] == "=":
                v = base(s["p"])
                if v:
                    out.add(("assignment at line %s" % s["ln"], v))
        t = b["t"]
        if t["k"] == "call":
            nm = short(t["fun"].get("fn") or "?")
            for x in t["a"]:
                if x["k"] in ("copy", "move") and x["p"].get("ty", "").startswith("&mut"):
                    v = base({"l": x["p"]["l"], "pr": [["deref"]]})
                    if v:
                        out.add((nm, v))
            if OUTPUT.search(nm) and not t.get("mac"):
                out.add((nm, ""))
            if not t["d"].get("pr") and name(t["d"]["l"]):
                out.add(("assignment at line %s" % t["ln"], name(t["d"]["l"])))
    return out, {(l["n"], l["at"]) for l in f["locals"] if l.get("n")}


def debug_only(c):
    dev, rel = c.world("dev"), c.world("release")
    for i, f in sorted(rel.fns.items()):
        d = dev.fns.get(i)
        if d is None:
            continue
        x, nx = changing(f)
        y, ny = changing(d)
        c.ok(1, "functions compared between the builds")
        for what, v in sorted((y - x) | (x - y)):
            if v and (v not in nx or v not in ny):
                continue
            which = "debug" if (what, v) in y else "release"
            c.violate("build|%s|%s|%s" % (i, what, v), "%s (%s:%s)" % (i, f["f"], f["ln"]),
                      "%s of %s happens in the %s build only" % (what, v[0] if v else "the output", which))
