import re
from vg import INT


def io_result(ty):
    """'R' for Result<_, io::Error>, 'O' for Option of one, None otherwise"""
    if re.match(r"std::result::Result<.*, (std|core|alloc)::io::(error::)?Error>$", ty):
        return "R"
    if re.match(r"std::option::Option<std::result::Result<.*, (std|core|alloc)::io::(error::)?Error>>$", ty):
        return "O"
    return None


ERR = ("V", 1, ())


def failval(ty):
    return ERR if io_result(ty) == "R" else ("V", 1, (ERR,))


def end_extras(a):
    """values that decide how the program ends"""
    out = []
    st = a.g.instate.get(a.ret)
    if st is not None:
        v = st.get(a.flat.ret_gid)
        if v is not None:
            out.append(v)
    for b, (k, x) in a.term.items():
        if k == "exit":
            out.append(x)
    return tuple(out)


def end_success(a, ex, end):
    """does this terminal state end the program with status 0?"""
    b, au, env, key = end
    k, x = a.term[b]
    if k == "ret":
        st = a.g.instate.get(a.ret, {})
        v = st.get(a.flat.ret_gid)
        ty = a.flat.local_ty[a.flat.ret_gid]
        if v is None or not ty.startswith("std::result::Result"):
            if "ExitCode" in ty:
                return True
            return True
        r = ex.ev(v, env)
        return not (isinstance(r, tuple) and r[0] == "V" and r[1] == 1)
    if k == "exit":
        c = a.g.cval(x)
        if c is None:
            c = ex.ev(x, env)
        return c in (0, None)
    return False


def is_unwrap_of_failure(a, ex, b, env):
    """b unwraps a value known to be Err / None: the program panics there"""
    e = a.events.get(b)
    if e is None or not e.get("modeled"):
        return False
    nm, last = e["name"], e["last"]
    if "result::Result" in nm and last in ("unwrap", "expect", "unwrap_unchecked"):
        v = ex.ev(e["args"][0], env)
        return isinstance(v, tuple) and v[0] == "V" and v[1] == 1
    if "option::Option" in nm and last in ("unwrap", "expect"):
        v = ex.ev(e["args"][0], env)
        return isinstance(v, tuple) and v[0] == "V" and v[1] == 0
    if "result::Result" in nm and last in ("unwrap_err", "expect_err"):
        v = ex.ev(e["args"][0], env)
        return isinstance(v, tuple) and v[0] == "V" and v[1] == 0
    return False


def generic_error_kind(a, node):
    """assumption on branch conditions that inspect io::Error::kind: the error is of no kind that is named there"""
    t = a.n[node]

    def iskind(n, d=0):
        t = a.n[n]
        if t[0] == "call":
            return t[2].split("::")[-1] == "kind" and "Error" in t[2]
        if t[0] in ("at", "with", "discr", "proj", "cast") and d < 5:
            return iskind(t[1] if t[0] != "cast" else t[3], d + 1)
        return False
    if t[0] == "discr" and iskind(t[1]):
        return -999
    if t[0] == "op" and t[1] in ("Eq", "Ne") and (iskind(t[3]) or iskind(t[4])):
        return int(t[1] == "Ne")
    return None


def failure_escapes(c, a, ex, block, node, ty):
    """None, or the path on which the program ends with status 0 although the operation at `block` failed"""
    v = failval(ty) if ty is not None else ERR

    def step(b, au, env):
        if is_unwrap_of_failure(a, ex, b, env):
            return None
        return au
    ex.assume = lambda n: generic_error_kind(a, n)
    bad = None
    for s, env in [(s, ex.enter(block, s, {node: v})) for s in a.succ[block]]:
        ends = ex.run(s, 0, step, env0=env)
        for e in ends:
            if end_success(a, ex, e):
                bad = c.path(a, ex, e[3])
                break
        if bad is not None:
            break
    ex.assume = None
    return bad


def inloop(a, b):
    return b in a.reach_from(b)


def calls_in(a, n, pred):
    return [a.n[x] for x in a.deps(n) if a.n[x][0] == "call" and pred(a.n[x][2])]


def isname(name, *suffixes):
    return any(name == s or name.endswith("::" + s) for s in suffixes)


def tool_files(c):
    return c.tools()


def argfields(c, tool):
    """fields of the tool's clap Args struct: {name: type}"""
    out = {}
    w = c.world()
    for f in w.fns.values():
        if f["crate"] != tool:
            continue
        for b in f["blocks"]:
            for s in b["st"]:
                if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"].get("adt", "").endswith("::Args"):
                    for nm, o in zip(s["r"].get("fs", ()), s["r"]["o"]):
                        out[nm] = o["p"]["ty"] if o["k"] in ("copy", "move") else o.get("ty", "")
    return out


# ---- places that stop a panic from ending the program
def intercepted(c, a, ex):
    """calls that catch a panic and whose failure does not make the program fail: [(block, name, blocks protected by it, path)]"""
    out = []
    w = a.flat.w

    def bodies(e):
        r = set()
        for x, ty in zip(e["args"], e["atys"]):
            t = a.n[a.strip(x)]
            if t[0] == "fn" and t[1] in w.fns:
                r.add(t[1])
        for ty in list(e["atys"]) + list(e["fun"].get("ga", ())) + [e["self"]]:
            m = re.search(r"\{closure@[^{}]*\}", ty)
            if m:
                for k, v in w.closure_ty.items():
                    if (k[1] if isinstance(k, tuple) else k) == m.group(0):
                        r.add(v)
            m = re.search(r"\{([\w:]+)\}", ty)
            if m:
                f = [x for x in w.fns if x == m.group(1) or x.endswith("::" + m.group(1))]
                r |= set(f)
        return r
    spawned = set()
    for e in a.evs(log=True):
        if e["last"] in ("spawn", "spawn_scoped", "spawn_unchecked") and "thread" in e["name"]:
            spawned |= bodies(e)
    for e in a.evs(log=True):
        nm = e["name"]
        if isname(nm, "panic::catch_unwind", "panicking::catch_unwind", "panicking::try"):
            fs = bodies(e)
        elif e["last"] == "join" and "JoinHandle" in nm + e["self"]:
            fs = spawned
        elif e["last"] in ("set_hook", "update_hook") and "panic" in nm:
            hook = bodies(e)
            for x in e["args"]:
                for y in a.deps(x):
                    if a.n[y][0] == "agg" and a.n[y][1][0] == "closure":
                        hook.add(a.n[y][1][1])
            todo, seen = list(hook) or list(hooks(a)), set()
            quiet = False
            while todo:
                f = todo.pop()
                if f in seen or f not in w.fns:
                    continue
                seen.add(f)
                for b in w.fns[f]["blocks"]:
                    t = b["t"]
                    if t["k"] == "call":
                        n2 = t["fun"].get("fn", "")
                        if n2.endswith("process::exit") and t["a"] and t["a"][0].get("v") in (0, None):
                            quiet = True
                        todo.append(n2)
            if quiet:
                out.append((e["block"], nm, set(a.reached), ()))
            continue
        else:
            continue
        inside = {b for b in a.reached if fs & (set(a.flat.blocks[b].stack) | {a.flat.blocks[b].fn})}
        bad = failure_escapes(c, a, ex, e["block"], e["node"], None)
        if bad is not None:
            out.append((e["block"], nm, inside, bad))
    return out


def hooks(a):
    """closures made in functions that install a panic hook"""
    w = a.flat.w
    fns = {a.flat.blocks[e["block"]].fn for e in a.evs(log=True) if e["last"] in ("set_hook", "update_hook")}
    return [f for f in w.fns if any(f.startswith(g + "::{closure") for g in fns)]


def caught(c, a, ex, tool, blocks, what):
    """report the places where a panic at one of the blocks would be swallowed"""
    for b, nm, inside, path in intercepted(c, a, ex):
        hit = sorted(inside & set(blocks))
        if hit:
            c.violate("%s|%s|%s|caught" % (tool, a.fn(b), nm), a.where(b),
                      "%s: %s stops the panic with which %s at %s is to end the program, which then ends successfully" % (tool, nm, what, a.where(hit[0])), path)
