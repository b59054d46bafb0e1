"""Structural properties: memory safety of the unsafe code, purity of the library, bounded stack, final end of input,
constant memory of the streaming tools."""
import re
from common import *
from reg import prop
from vg import short, INT, NOEFF
from p_byte import indexings


# ------------------------------------------------------------------------------------------------ call graph
def calls_of(f):
    """(callee operand, terminator) of every call of a function, and the workspace functions it mentions"""
    for b in f["blocks"]:
        t = b["t"]
        if t["k"] == "call":
            yield t


def operands(f):
    for b in f["blocks"]:
        for s in b["st"]:
            if s["k"] == "=":
                for o in s["r"].get("o", ()):
                    yield o, s
        t = b["t"]
        if t["k"] == "call":
            for o in t["a"]:
                yield o, t


def edges(w):
    """workspace call graph: function -> {(callee, line)}; closures count as called by the function that makes them"""
    g = {}
    own = {}
    for f in w.fns.values():
        if f.get("impl_trait") and f.get("impl_self"):
            own.setdefault(re.sub(r"<.*", "", f["impl_self"]), []).append(f)
    for f in w.fns.values():
        out = g.setdefault(f["id"], set())
        for b in f["blocks"]:
            for s in b["st"]:
                if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"]["ak"] == "closure" and s["r"]["fn"] in w.fns:
                    out.add((s["r"]["fn"], s["ln"]))
        for o, s in operands(f):
            if o["k"] == "const" and o.get("fn"):
                i = w.find(o["fn"])
                if i:
                    out.add((i, s.get("ln")))
        for t in calls_of(f):
            fun = t["fun"]
            if fun.get("k") != "const" or "fn" not in fun:
                # a call through a pointer: every function turned into a pointer of this type
                if fun.get("k") in ("copy", "move"):
                    from ir import fnty
                    for c in w.reified.get(fnty(fun["p"]["ty"]), ()):
                        if c in w.fns:
                            out.add((c, t.get("ln")))
                continue
            hit = False
            for key in ("res", "fn"):
                i = w.find(fun.get(key))
                if i and not fun.get("ctor"):
                    out.add((i, t.get("ln")))
                    hit = True
                    break
            if hit:
                continue
            tr = fun.get("trait", "")
            # foreign code that may call back into an implementation of a foreign trait for one of our types
            tys = " ".join([fun.get("self", "")] + list(fun.get("ga", ())) + [x["p"]["ty"] if x["k"] in ("copy", "move") else x.get("ty", "") for x in t["a"]])
            for base, fs in own.items():
                if base and re.search(r"(?<![\w:])%s(?!\w)" % re.escape(base), tys):
                    for h in fs:
                        same = h["impl_trait"].split("<")[0] == tr.split("<")[0]
                        if same and h["id"].split("::")[-1] == fun.get("name") or \
                                "iter" in tr and h["impl_trait"].endswith("iter::Iterator") and h["id"].endswith("::next"):
                            out.add((h["id"], t.get("ln")))
    return g


def sccs(g):
    """strongly connected components (iterative Tarjan)"""
    idx, low, st, on, out, n = {}, {}, [], set(), [], 0
    for r in g:
        if r in idx:
            continue
        work = [(r, iter([c for c, _ in g.get(r, ())]))]
        idx[r] = low[r] = n
        n += 1
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for c in it:
                if c not in idx:
                    idx[c] = low[c] = n
                    n += 1
                    st.append(c)
                    on.add(c)
                    work.append((c, iter([x for x, _ in g.get(c, ())])))
                    break
                if c in on:
                    low[v] = min(low[v], idx[c])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        x = st.pop()
                        on.discard(x)
                        comp.append(x)
                        if x == v:
                            break
                    out.append(comp)
    return out


# ------------------------------------------------------------------------------------------------ C25
def counted_down(c, w, f, prof):
    """does every recursive call of f pass one of its 8-bit parameters decreased, or one of its numbers halved?"""
    try:
        a = c.A(f["id"], profile=prof, opaque=(f["id"],))
    except Exception:
        return False
    evs = [e for e in a.events.values() if w.find(e["fun"].get("res") or e["fun"].get("fn")) == f["id"]]
    if not evs:
        return False
    for j in range(f["argc"]):
        ty = f["locals"][1 + j]["ty"]
        p = a.g.init.get(a.flat.params[j])
        ok = True
        for e in evs:
            if j >= len(e["args"]):
                ok = False
                break
            t = a.n[a.uncast(e["args"][j])]
            dec = t[0] == "op" and t[1] == "Sub" and t[3] == p and (a.g.cval(t[4]) or 0) > 0 and ty in ("u8", "i8")
            dec = dec or t[0] == "call" and t[2].split("::")[-1] == "saturating_sub" and a.strip(t[3][0]) == p and (a.g.cval(t[3][1]) or 0) > 0 and ty == "u8"
            dec = dec or t[0] == "proj" and any(a.n[x][0] == "call" and a.n[x][2].endswith("checked_sub") and a.strip(a.n[x][3][0]) == p
                                                for x in a.deps(e["args"][j])) and ty == "u8"
            dec = dec or t[0] == "op" and t[1] in ("Div", "Shr") and t[3] == p and (a.g.cval(t[4]) or 0) >= (2 if t[1] == "Div" else 1) and ty in INT
            ok = ok and dec
        if ok:
            return True
    return False


ARR = re.compile(r"\[([^\[\];]+); (\d+)\]")
SIZE = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "char": 4}


def arrsize(ty):
    m = ARR.fullmatch(ty)
    if m:
        return SIZE.get(m[1], 8) * int(m[2])
    m = re.fullmatch(r"\[(\[.*\]); (\d+)\]", ty)
    return arrsize(m[1]) * int(m[2]) if m else 0


@prop("C25", "call graph of all workspace functions (direct calls, closures, function pointers by type, callbacks from foreign code into our "
      "trait implementations): no cycle, except one in which every recursive call decreases an 8-bit parameter or halves a number; no type "
      "that owns itself through a pointer (its destructor would recurse); no local array above 256 KB")
def c25(c):
    for prof in c.profiles():
        w = c.world(prof)
        g = edges(w)
        ne = sum(len(v) for v in g.values())
        c.ok(len(g), "functions in the call graph")
        c.ok(ne, "call edges")
        c.roots |= {f["id"] for f in w.fns.values() if f["id"].endswith("::main")}
        c.fns |= set(w.fns)
        for comp in sccs(g):
            s = set(comp)
            if len(comp) == 1 and not any(x == comp[0] for x, _ in g[comp[0]]):
                continue
            if len(comp) == 1 and counted_down(c, w, w.fns[comp[0]], prof):
                c.ok(1, "bounded recursions")
                continue
            v = sorted(comp)[0]
            f = w.fns[v]
            c.violate("cycle|%s" % v, "%s (%s:%s)" % (v, f["f"], f["ln"]), "the functions call each other recursively: the stack grows with the input",
                      ["%s -> %s (line %s)" % (x, y, ln) for x in sorted(comp) for y, ln in sorted(g[x], key=str) if y in s])
        adts = {x["id"]: x for j in w.crates.values() for x in j.get("adts", [])}
        own = {}
        for i, x in adts.items():
            own[i] = set()
            for ft in x["fs"]:
                if ft.startswith("&") or "Weak<" in ft or ft.startswith("*"):
                    continue
                for k in adts:
                    if re.search(r"(?<![\w:])%s(?!\w)" % re.escape(k), ft) or (k.startswith(x["id"].split("::")[0] + "::") and
                                                                             re.search(r"(?<![\w:])%s(?!\w)" % re.escape(k.split("::", 1)[1]), ft)):
                        own[i].add((k, 0))
        c.ok(len(adts), "types")
        for comp in sccs(own):
            if len(comp) > 1 or any(x == comp[0] for x, _ in own.get(comp[0], ())):
                x = adts[sorted(comp)[0]]
                c.violate("owns|%s" % x["id"], "%s (%s:%s)" % (x["id"], x.get("f"), x.get("ln")),
                          "the type owns values of its own type: dropping a long chain of them overflows the stack")
        for f in w.fns.values():
            for l in f["locals"]:
                if arrsize(l["ty"]) > 1 << 18:
                    c.violate("array|%s|%s" % (f["id"], l["ty"]), "%s (%s:%s)" % (f["id"], f["f"], f["ln"]), "a local array of %d bytes" % arrsize(l["ty"]))
        c.floor("functions", len(g), 60)


# ------------------------------------------------------------------------------------------------ C24
EFFECTS = [
    (r"process::(exit|abort)$|process::Command|::abort$", "ends the process or starts another"),
    (r"std::env::|env::(var|vars|args|args_os|var_os|current_dir|temp_dir|set_var|remove_var)$", "looks at the environment of the process"),
    (r"std::fs::|fs::(read|write|File|OpenOptions|remove_file|create_dir)", "touches the file system"),
    (r"std::net::|std::os::", "touches the operating system"),
    (r"io::(stdio::)?(stdin|stdout|stderr|_print|_eprint|read_to_string|empty_stdin)$", "uses a standard stream"),
    (r"std::thread::|thread::(spawn|sleep|current|scope|park)|LocalKey", "uses threads or thread-local state"),
    (r"std::time::|time::(Instant|SystemTime)", "reads the clock"),
    (r"^rand::|rand_core|getrandom|RandomState|thread_rng", "uses randomness"),
    (r"std::panic::(set_hook|take_hook)|log::set_|env_logger::", "changes the settings of the process"),
]
LOGCALL = re.compile(r"(^|::)log::|__private_api")


def logmac(s):
    return any(m.split("::")[-1] in ("info", "debug", "warn", "error", "trace", "log", "log_enabled") for m in s.get("mac") or ())


@prop("C24", "effect analysis of the call graph of the library: no function reachable from a function of the core and word modules calls into the "
      "process, environment, file system, standard streams, threads, clock or randomness (RandomStringGenerator excepted) or uses a static "
      "that can change; the io module alone touches files and the standard streams")
def c24(c):
    for prof in c.profiles():
        w = c.world(prof)
        g = edges(w)
        lib = [f for f in w.fns.values() if f["crate"] == "stringology"]
        c.roots |= {f["id"] for f in lib if f.get("pub")}
        reach = {}
        for f in lib:
            if f["id"].startswith("stringology::io::") or re.search(r"RandomStringGenerator", f["id"]):
                continue
            todo = [(f["id"], (f["id"],))]
            while todo:
                x, p = todo.pop()
                if x in reach:
                    continue
                reach[x] = p
                for y, _ in g.get(x, ()):
                    if y not in reach and "RandomStringGenerator" not in y:
                        todo.append((y, p + (y,)))
        n = 0
        for i, p in sorted(reach.items()):
            f = w.fns[i]
            c.fns.add(i)
            for t in calls_of(f):
                fun = t["fun"]
                if fun.get("k") != "const" or "fn" not in fun:
                    continue
                n += 1
                c.ok(1, "calls")
                nm = short(fun["fn"])
                full = nm + " " + " ".join(fun.get("ga", ())) if "RandomState" in " ".join(fun.get("ga", ())) else nm
                if logmac(t) and (LOGCALL.search(nm) or "fmt" in nm):
                    continue
                for pat, why in EFFECTS:
                    if re.search(pat, nm) and not (pat.startswith("^rand") and "RandomState" in full):
                        c.violate("%s|%s" % (i, nm), "%s (%s:%s)" % (i, t.get("f"), t.get("ln")), "%s %s: %s" % (i, why, nm), p)
        for j in [w.crates["stringology"]]:
            for s in j.get("statics", []):
                c.ok(1, "statics")
                once = re.match(r"(std|core|once_cell).*(OnceLock|LazyLock|OnceCell|Lazy)<", s["ty"])
                if s["mut"] or not s["freeze"] and not once:
                    c.violate("static|%s" % s["id"], "%s (%s:%s)" % (s["id"], s["f"], s["ln"]),
                              "the static %s of type %s can change: results depend on earlier calls" % (s["id"], s["ty"]))
        # a value computed once must not depend on the arguments of the call that happens to be the first
        for f in lib:
            cl = {}
            for b in f["blocks"]:
                for s in b["st"]:
                    if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"]["ak"] == "closure":
                        cl[s["p"]["ty"]] = len(s["r"]["o"])
            for t in calls_of(f):
                nm = short(t["fun"].get("fn") or "")
                if re.search(r"(OnceLock|OnceCell|LocalKey)", nm) and nm.split("::")[-1] in ("set", "get_or_init", "get_mut_or_init", "take", "replace", "get_or_try_init"):
                    caps = [cl.get(x["p"]["ty"], 0) for x in t["a"][1:] if x["k"] in ("copy", "move")]
                    if nm.split("::")[-1] != "get_or_init" or any(caps):
                        c.violate("once|%s" % f["id"], "%s (%s:%s)" % (f["id"], t.get("f"), t.get("ln")),
                                  "a value kept for later calls depends on this call: results depend on earlier calls")
        c.floor("library calls", n, 80)


# ------------------------------------------------------------------------------------------------ C26
def eof_value(e):
    """what the call returns at the end of the input, None if it is not such a read"""
    nm, last, ty = e["name"], e["last"], e["dty"]
    if nm.endswith(("OpenOptions::read", "fs::read")):
        return None
    if last in ("read", "read_line", "read_until") and re.search(r"::io::(Read|BufRead)::|^std::(fs|io)::.*read$", nm):
        return ("V", 0, (0,))
    if last in ("next",) and re.search(r"io::(Bytes|Lines|Split)<", " ".join(e["atys"]) + e["self"]):
        return ("V", 0, ())
    return None


MEMORY = re.compile(r"^(&('\S+ )?(mut )?)*((std|alloc)::(vec::Vec<u8|string::String)|\[u8|str$)")


def from_memory(a, e):
    """the reader is a piece of memory: reading it reads nothing of the input"""
    seen, todo, roots = set(), [e["snaps"][0]], []
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        t = a.n[v]
        if t[0] == "at":
            todo.append(t[1])
        elif t[0] == "with":
            todo += t[2] or (t[1],)
        elif t[0] == "phi" and not MEMORY.match(a.flat.local_ty[t[2]]):
            roots.append(False)
        elif t[0] == "phi":
            roots.append(True)
        else:
            roots.append(False)
    return bool(roots) and all(roots)


@prop("C26", "for every read of the input (Read::read, BufRead::read_line/read_until, next of an iterator over the input) in every tool a "
      "path-sensitive forward analysis starts with the fact that it returned the end of the input, and must reach no further read of it")
def c26(c):
    n = m = 0
    for prof in c.profiles():
        for tool in c.tools(prof):
            a = c.A(tool, profile=prof)
            ex = c.explorer(a, end_extras(a))
            rd = {e["block"]: eof_value(e) for e in a.evs(log=True) if not e.get("modeled") and eof_value(e) is not None and not from_memory(a, e)}
            bulk = {e["block"] for e in a.evs(log=True) if (e["last"] in ("read_to_end", "read_to_string") or e["name"].endswith("fs::read")) and not e.get("modeled")}
            m += len(bulk)
            for b, v in sorted(rd.items()):
                n += 1
                c.ok(1, "reads")
                node = a.events[b]["node"]
                hit = []

                def step(x, au, env):
                    if x in rd and not hit:
                        hit.append((x, env))
                        return None
                    if hit:
                        return None
                    return au
                ex.assume = lambda nn: generic_error_kind(a, nn)
                for s in a.succ[b]:
                    ex.run(s, 0, step, env0=ex.enter(b, s, {node: v}))
                    if hit:
                        break
                ex.assume = None
                c.sample("%s: %s" % (tool, a.where(b)))
                if hit:
                    c.violate("%s|%s|%s" % (tool, a.fn(b), a.fn(hit[0][0])), a.where(b),
                              "%s: after the end of the input it reads again at %s" % (tool, a.where(hit[0][0])))
    c.floor("reads and bulk reads", n + m, 12)


# ------------------------------------------------------------------------------------------------ C29
STREAM = ("count_runs", "mtf", "rle", "escape")
GROW = {"push", "push_back", "push_front", "push_str", "extend", "extend_from_slice", "append", "insert", "resize", "resize_with", "insert_str",
        "read_to_end", "read_to_string", "read_until", "read_line", "write_all", "write", "write_fmt", "write_str", "or_insert",
        "or_insert_with", "or_default", "reserve", "extend_from_within"}
SHRINK = {"clear", "drain", "truncate", "pop", "pop_front", "pop_back", "remove", "swap_remove", "split_off", "take", "retain", "set_len"}
WHOLE = re.compile(r"(Read::read_to_end|Read::read_to_string|io::read_to_string|fs::read|fs::read_to_string|BufRead::lines|BufRead::split|"
                   r"BufRead::read_line|BufRead::read_until|Mmap|file2byte_vector|stdin2byte_vector)$")
LEAK = re.compile(r"(Box|Vec|String|Rc|Arc|CString)(::)?(<.*>)?::(leak|into_raw|into_raw_parts|into_non_null)$|mem::forget$|ManuallyDrop(::)?(<.*>)?::new$")
CONT = re.compile(r"(std|alloc)::(vec::Vec|string::String|collections::\S*?(VecDeque|BTreeMap|BTreeSet|HashMap|HashSet|BinaryHeap|LinkedList))(<|$)|io::Cursor<")
SMALLKEY = re.compile(r"(BTreeMap|BTreeSet|HashMap|HashSet)<(u8|i8|bool|\(\))\b")


def cell_of(a, n, d=0):
    """the memory cell a mutable reference goes to"""
    t = a.n[n]
    if t[0] == "ref":
        return (t[1], t[2])
    return None


@prop("C29", "in the streaming tools no operation collects the whole input, and in a loop that reads the input no container that lives across "
      "iterations grows, unless it is keyed by a byte or is also shrunk in that loop (dataflow from growing calls to the loop-carried state)")
def c29(c):
    n = 0
    for prof in c.profiles():
        for tool in STREAM:
            if tool + "::main" not in c.world(prof).fns:
                c.violate("gone|" + tool, tool, "the tool %s is gone" % tool)
                continue
            a = c.A(tool, profile=prof)
            rds = {e["block"] for e in a.evs(log=True) if eof_value(e) is not None or
                   e["last"] in ("read_exact", "fill_buf") and "io::" in e["name"]}
            n += len(rds)
            c.ok(len(rds), "reads")
            cyc = {r for r in rds if r in a.reach_from(r)}
            for e in a.evs(log=True):
                b = e["block"]
                tys = " ".join(e["atys"]) + " " + e["self"]
                if WHOLE.search(e["name"]) and not re.search(r"&\[u8\]>?$", e["self"]):
                    c.violate("%s|%s|%s" % (tool, a.fn(b), e["name"]), a.where(b), "%s: %s loads an unbounded part of the input into memory" % (tool, e["name"]))
                if e["last"] in ("collect", "fold", "partition", "unzip") and re.search(r"io::(Bytes|Lines|Split)<", tys + " ".join(e["fun"].get("ga", ()))) \
                        and CONT.search(e["dty"]) and not SMALLKEY.search(e["dty"]):
                    c.violate("%s|%s|%s" % (tool, a.fn(b), e["name"]), a.where(b), "%s: %s collects the whole input" % (tool, e["name"]))
                if LEAK.search(e["name"]) and any(b in a.reach_from(r) and r in a.reach_from(b) for r in cyc):
                    c.violate("%s|%s|%s" % (tool, a.fn(b), e["name"]), a.where(b), "%s: %s in the reading loop keeps memory for ever" % (tool, e["name"]))
                if e["last"] not in GROW or not e["args"] or not e["atys"]:
                    continue
                ty = re.sub(r"^&('\w+ )?(mut )?", "", e["atys"][-1 if e["last"] in ("read_to_end", "read_until", "read_line") else 0])
                ty = re.sub(r"^std::collections::\w+::Entry<'?\w*,? ?", "std::collections::HashMap<", ty)
                if not CONT.search(ty) or SMALLKEY.search(ty):
                    continue
                loops = [r for r in cyc if b in a.reach_from(r) and r in a.reach_from(b)]
                if not loops:
                    continue
                c.ok(1, "growing calls in reading loops")
                cur = e["snaps"][-1 if e["last"] in ("read_to_end", "read_until", "read_line") else 0]
                # does the container carry contents from one iteration to the next?
                region = {x for x in a.reach_from(loops[0]) if loops[0] in a.reach_from(x)}
                ph = carried(a, cur, region)
                if not ph:
                    continue
                # is it shrunk in the same loop?
                cell = {a.n[p][2] for p in ph}
                shr = False
                for y in region:
                    e2 = a.events.get(y)
                    if e2 is not None and e2["args"] and (e2["last"] in SHRINK):
                        if any(p in a.deps(s) for s in e2["snaps"][:1] for p in ph) or \
                                any(a.n[x][0] == "ref" and a.n[x][1] in cell for x in e2["args"][:1]):
                            shr = True
                    for ev in a.g.trace.get(y, ()):
                        if ev[0] == "set" and ev[1][0] == "cell" and ev[1][1] in cell and not ev[1][2] and not (ph & a.deps(ev[2])):
                            shr = True
                if not shr:
                    c.violate("%s|%s|%s" % (tool, a.fn(b), e["last"]), a.where(b),
                              "%s: %s in the reading loop grows a %s with every byte of the input" % (tool, e["last"], ty.split("<")[0]))
    c.floor("reads of the streaming tools", n, 4)


def carried(a, n, region):
    """joins inside the loop through which a value of an earlier iteration comes back"""
    out, todo, seen = set(), [n], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        t = a.n[x]
        if t[0] == "phi":
            if t[1] in region:
                out.add(x)
            todo += a.g.phi_ops(x)
        elif t[0] in ("at", "proj", "with", "load"):
            todo += [t[1]] + (list(t[2]) if t[0] in ("with", "load") else [])
        elif t[0] == "eff":
            todo.append(t[3])
        elif t[0] in ("store", "upd", "wstore"):
            todo.append(t[1])
        elif t[0] == "call" and t[3]:
            if t[2].split("::")[-1] in ("entry", "by_ref", "new", "as_mut", "get_mut", "iter_mut"):
                todo += t[3][:1]
        elif t[0] == "ref":
            pass
    return out


# ------------------------------------------------------------------------------------------------ C13
LENKEEP = re.compile(r"^(sort\w*|reverse|fill|swap|index_mut|iter_mut|get_mut|get_unchecked_mut|first_mut|last_mut|copy_from_slice|"
                     r"clone_from_slice|rotate_left|rotate_right|as_mut_ptr|as_mut_slice|chunks_mut|chunks_exact_mut|split_at_mut|deref_mut|reserve|"
                     r"reserve_exact|copy_within|sort_in_place|windows|shrink_to_fit)$")


def vroot(a, n, d=0):
    """the value that created a vector, through everything that keeps its length"""
    memo = a.__dict__.setdefault("_vroot", {})
    if n in memo:
        return memo[n]
    seen, leaves, todo = set(), set(), [n]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        t = a.n[x]
        if t[0] in ("at", "with"):
            todo.append(t[1])
        elif t[0] in ("store", "wstore"):
            todo.append(t[1])
        elif t[0] == "eff" and a.n[t[1]][0] == "call" and LENKEEP.match(a.n[t[1]][2].split("::")[-1]):
            todo.append(t[3])
        elif t[0] == "phi":
            todo += a.g.phi_ops(x)
        else:
            leaves.add(x)
    r = leaves.pop() if len(leaves) == 1 else n
    memo[n] = r
    return r


def norm(a, x):
    """x as (node, constant offset)"""
    k = 0
    while True:
        t = a.n[x]
        if t[0] in ("at", "with"):
            x = t[1]
        elif t[0] == "op" and t[1] == "Add" and a.g.cval(t[4]) is not None:
            k += a.g.cval(t[4])
            x = t[3]
        elif t[0] == "op" and t[1] == "Add" and a.g.cval(t[3]) is not None:
            k += a.g.cval(t[3])
            x = t[4]
        else:
            return x, k


def accesses(a, R):
    """(block, node, offset) of the checked element accesses of the vector R"""
    memo = a.__dict__.setdefault("_acc", {})
    if R not in memo:
        out = set()
        for b, base, j in indexings(a):
            if vroot(a, base) == R:
                out.add((b,) + norm(a, j))
        for b in a.reached:
            e = a.events.get(b)
            if e is not None and e["last"] in ("index", "index_mut") and len(e["args"]) == 2 and e["snaps"] and \
                    vroot(a, e["snaps"][0]) == R:
                if e["atys"][1] == "usize":
                    out.add((b,) + norm(a, e["args"][1]))
                else:               # a part of it: its end is at most the length
                    r = a.n[e["snaps"][1]]
                    end, incl = None, False
                    if r[0] == "agg" and re.search(r"ops::(range::)?(Range|RangeTo|RangeToInclusive|RangeFrom)$", r[1][1]):
                        end, incl = r[2][-1], r[1][1].endswith("Inclusive")
                    elif r[0] == "call" and r[2].endswith("RangeInclusive::new"):
                        end, incl = r[3][1], True
                    if end is not None:
                        x, j = norm(a, end)
                        out.add((b, x, j if incl else j - 1))
            t = a.flat.blocks[b].t
            if t["k"] == "assert" and t.get("m") == "bounds" and b in a.g.cond:
                u = a.n[a.g.cond[b]]
                if u[0] == "op" and u[1] == "Lt" and a.n[u[4]][0] == "len" and vroot(a, a.n[u[4]][1]) == R:
                    out.add((b,) + norm(a, u[3]))
        memo[R] = out
    return memo[R]


def item_of(a, y):
    """block of the next() whose result y is, None if it is something else"""
    t = a.n[a.strip(y)]
    while t[0] == "proj":
        t = a.n[a.strip(t[1])]
    return t[1] if t[0] == "call" and t[2].split("::")[-1] == "next" else None


def counted(a, x, k, R, b, hyp, d):
    """is x + k <= len(R) because a loop over a range, which has ended, accessed every position up to there?"""
    from p_io import range_of
    for cond, val in a.facts(b):
        u = a.n[cond]
        if u[0] != "discr" or val != 0:
            continue
        q = a.n[a.strip(u[1])]
        if q[0] != "call" or q[2].split("::")[-1] != "next" or not a.events.get(q[1]):
            continue
        nb = q[1]
        r = range_of(a, a.events[nb]["snaps"][0])
        if r is None:
            continue
        lo, hi, incl = r
        some = [y for y in a.reach_from(nb) if (cond, 1) in a.facts(y)]
        for p, y, j in accesses(a, R):
            if p not in some:
                continue
            t = a.n[y]
            if item_of(a, y) == nb:
                hx, hk = norm(a, hi)
                if hx != x or hk + j + int(incl) < k or not below_len(a, lo, k - hk, R, b, hyp, d + 1):
                    continue
            elif t[0] == "op" and t[1] == "Add" and nb in (item_of(a, t[3]), item_of(a, t[4])):
                o = t[4] if item_of(a, t[3]) == nb else t[3]
                w = a.n[x]
                if w[0] != "op" or w[1] != "Add" or a.g.cval(lo) != 0 or incl or j < k or (w[3], w[4]) not in ((o, hi), (hi, o)) or \
                        not below_len(a, o, k, R, b, hyp, d + 1):
                    continue
            else:
                continue
            # every round passes the access
            first = [z for z in some if any((cond, 1) not in a.facts(w) for w in a.flat.blocks[z].pred if w in a.reached)]
            if all(not passes_by(a, z, nb, p) for z in first):
                return True
    return False


def passes_by(a, s, goal, wall):
    """is there a path from s to goal that avoids wall?"""
    seen, todo = set(), [s]
    while todo:
        z = todo.pop()
        if z == goal:
            return True
        if z in seen or z == wall:
            continue
        seen.add(z)
        todo += a.succ[z]
    return False


def below_len(a, x, k, R, b, hyp=frozenset(), d=0):
    """is x + k <= len(R) whenever b is left?"""
    x, m = norm(a, x)
    k += m
    if d > 30:
        return False
    v = a.g.cval(x)
    if v is not None and v + k <= 0:
        return True
    if (x, k) in hyp:
        return True
    t = a.n[x]
    if t[0] == "len" and vroot(a, t[1]) == R and k <= 0:
        return True
    rt = a.n[R]
    if rt[0] == "call" and rt[2].endswith("from_elem"):
        lx, lk = norm(a, rt[3][1])
        if lx == x and k <= lk:
            return True
        lv = a.g.cval(lx)
        if v is not None and lv is not None and v + k <= lv + lk:
            return True
    for p, y, j in accesses(a, R):
        if not a.dominates(p, b):
            continue
        yv = a.g.cval(y)
        if y == x and j >= k - 1 or v is not None and yv is not None and yv + j >= v + k - 1:
            return True
    for cond, val in a.facts(b):
        u = a.n[cond]
        if u[0] == "op" and u[1] in ("Lt", "Le") and val in (0, 1):
            lo, hi, strict = (u[3], u[4], u[1] == "Lt") if val == 1 else (u[4], u[3], u[1] == "Le")
            ly, lj = norm(a, lo)
            hy, hj = norm(a, hi)
            if ly == x and a.n[hy][0] == "len" and vroot(a, a.n[hy][1]) == R and lj + int(strict) - hj >= k:
                return True
    if counted(a, x, k, R, b, hyp, d):
        return True
    if t[0] == "call" and t[2].split("::")[-1] == "min" or t[0] == "op" and t[1] == "min":
        ops = t[3] if t[0] == "call" else t[3:]
        return any(below_len(a, o, k, R, b, hyp, d + 1) for o in ops)
    if t[0] == "call" and t[2].split("::")[-1] == "saturating_sub" and (a.g.cval(t[3][1]) is not None):
        return below_len(a, t[3][0], k - 0, R, b, hyp, d + 1)
    if t[0] == "phi":
        # the vector must not be replaced while this value lives on
        for q in a.defs(R):
            if q in a.reach_from(t[1]) and t[1] in a.reach_from(q):
                return False
        ops = a.g.phis.get((t[1], t[2]), {})
        h = hyp | {(x, k)}
        return all(o == x or below_len(a, o, k, R, p, h, d + 1) for p, o in ops.items())
    return False


def initialised(a, R):
    t = a.n[R]
    if t[0] == "call" and (t[2].endswith("from_elem") or t[2].split("::")[-1] in ("collect", "to_vec", "from", "into", "from_iter", "repeat", "concat")):
        return True
    if t[0] == "agg" or t[0] == "const" or t[0] == "repeat":
        return True
    return t[0] in ("param", "proj", "load") or t[0] == "eff" and a.n[t[1]][0] == "call" and \
        a.n[t[1]][2].split("::")[-1] in ("push", "resize", "extend", "extend_from_slice", "read_to_end", "truncate", "pop")


def unsafe_ok(a, e):
    """is the condition of an unsafe call established? None or the reason why not"""
    nm = e["last"]
    if re.search(r"(Vec|String)::set_len$", e["name"]) and nm == "set_len":
        R = vroot(a, e["snaps"][0])
        if not initialised(a, R):
            return "the elements that set_len uncovers are not initialised"
        if not below_len(a, e["args"][1], 0, R, e["block"]):
            return "the new length is not known to be at most the number of initialised elements"
        return None
    if nm in ("get_unchecked", "get_unchecked_mut") and e["atys"][1] == "usize":
        R = vroot(a, e["snaps"][0])
        if not below_len(a, e["args"][1], 1, R, e["block"]):
            return "the index is not known to be below the length"
        return None
    return "nothing is known that establishes the condition of this unsafe operation"


def callers(w, g, i):
    return sorted(x for x, ys in g.items() if any(y == i for y, _ in ys))


@prop("C13", "every unsafe operation written in the workspace is found in the type-checked program; each must be Vec::set_len with a length proved "
      "(inductively over the joins, from dominating bounds checks) to be at most the length of a fully initialised vector, or an unchecked access "
      "whose index is proved below the length; no raw pointer is dereferenced, no static is mutable, no trait is implemented unsafely")
def c13(c):
    for prof in c.profiles():
        w = c.world(prof)
        g = edges(w)
        c.ok(len(w.fns), "functions scanned for unsafe operations")
        c.fns |= set(w.fns)
        c.roots |= {i for i in w.fns if i.endswith("::main")}
        for j in w.crates.values():
            for x in j.get("unsafe_impls", []):
                c.violate("impl|%s|%s" % (x["f"], x["ln"]), "%s:%s" % (x["f"], x["ln"]), "an unsafe implementation of a trait: nothing establishes its condition")
            for s in j.get("statics", []):
                c.ok(1, "statics")
                if s["mut"]:
                    c.violate("static|%s" % s["id"], "%s (%s:%s)" % (s["id"], s["f"], s["ln"]), "a mutable static")
        for i, f in sorted(w.fns.items()):
            ubs = f.get("ub", [])
            inside = lambda ln: any(lo <= ln <= hi for lo, hi in ubs)
            todo = []
            for t in calls_of(f):
                if t["fun"].get("unsafe") and not t.get("mac") and not re.search(r"\bfmt::(Arguments\b|rt::)", t["fun"].get("fn") or ""):
                    n = w.find(t["fun"].get("res") or t["fun"].get("fn"))
                    if n:
                        continue         # an unsafe function of the workspace: its own operations are examined
                    todo.append(t)
            if ubs or f.get("unsafe"):
                c.ok(len(ubs), "unsafe blocks")
                boxes = {s["p"]["l"] for b in f["blocks"] for s in b["st"] if s["k"] == "=" and s["r"]["k"] == "cast" and
                         s["r"].get("ck") == "BoxDerefTransmute"}
                for b in f["blocks"]:
                    for s in b["st"]:
                        if s["k"] != "=" or s.get("mac") or not (f.get("unsafe") or inside(s["ln"])):
                            continue
                        ps = [s["p"]] + [o["p"] for o in s["r"].get("o", ()) if o["k"] in ("copy", "move")] + ([s["r"]["p"]] if "p" in s["r"] else [])
                        for p in ps:
                            if any(x[0] == "deref" for x in p.get("pr", ())) and f["locals"][p["l"]]["ty"].startswith("*") and p["l"] not in boxes:
                                c.violate("deref|%s" % i, "%s (%s:%s)" % (i, s["f"], s["ln"]), "a raw pointer is dereferenced: nothing establishes that it is valid")
            for t in todo:
                c.ok(1, "unsafe calls")
                why = prove(c, w, g, f, t, prof)
                c.sample("%s line %s: %s" % (i, t.get("ln"), t["fun"]["fn"]))
                if why:
                    c.violate("%s|%s" % (i, t["fun"].get("name")), "%s (%s:%s)" % (i, t.get("f"), t.get("ln")), "%s: %s" % (t["fun"]["fn"], why))
        c.floor("functions", len(w.fns), 60)


def prove(c, w, g, f, t, prof):
    """None if the call's condition holds in f alone or, for a private function, in all the functions that call it"""
    lvl, seen, why = [f["id"]], set(), None
    fails = lvl
    for depth in range(4):
        nxt = []
        for r in fails:
            if r in seen:
                continue
            seen.add(r)
            if w.fns[r]["kind"] == "Closure":
                nxt += callers(w, g, r)
                continue
            a = c.A(r, profile=prof)
            evs = [e for e in a.events.values() if e["fun"].get("fn") == t["fun"]["fn"] and a.fn(e["block"]) == f["id"] and e["loc"].get("ln") == t.get("ln")]
            bad = None
            for e in evs:
                bad = bad or unsafe_ok(a, e)
            if bad:
                why = bad
                cs = callers(w, g, r)
                if not cs or w.fns[r].get("pub") and w.fns[r]["crate"] == "stringology":
                    return why
                nxt += cs
        if not nxt:
            return None
        fails = nxt
    return why
