"""Loads the driver's dumps and flattens a root function with everything of the workspace it calls."""
import glob, json, os, re


class Crate:
    pass


def conf(o):
    m = o.get("mac")
    if m and any(x.split("::")[-1].strip("!") == "cfg" for x in m):
        for q in ((o.get("r") or {}).get("o") or ()) if isinstance(o.get("r"), dict) else ():
            if q.get("k") == "const" and q.get("ty") == "bool":
                q["level"] = 1
        if o.get("k") == "switch" and o["o"].get("k") == "const" and o["o"].get("ty") == "bool":
            o["o"]["level"] = 1
    return o


class World:
    def __init__(self, dumpdir, openconf=False):
        self.fns = {}
        self.crates = {}
        self.closure_ty = {}
        self.statics = {}
        for p in sorted(glob.glob(os.path.join(dumpdir, "*.json"))):
            j = json.load(open(p), object_hook=conf if openconf else None)
            self.crates[j["crate"]] = j
            for f in j["fns"]:
                f["crate"] = j["crate"]
                self.fns[f["id"]] = f
            for s in j.get("statics", []):
                self.statics[s["id"]] = s
        # closure type string -> id
        for f in self.fns.values():
            for b in f["blocks"]:
                for s in b["st"]:
                    if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"]["ak"] == "closure":
                        ty = s["p"]["ty"]
                        self.closure_ty[(f["crate"], ty)] = s["r"]["fn"]
                        self.closure_ty.setdefault(ty, s["r"]["fn"])
        # trait methods are named differently from outside their crate
        self.impl = {}
        for i in list(self.fns):
            if "<" in i:
                self.impl.setdefault(self.canon(i), i)
        # functions turned into pointers, by pointer type
        self.reified = {}
        for f in self.fns.values():
            for b in f["blocks"]:
                for s in b["st"]:
                    if s["k"] == "=" and s["r"]["k"] == "cast" and "ReifyFnPointer" in s["r"]["ck"]:
                        o = s["r"]["o"][0]
                        if o.get("fn"):
                            self.reified.setdefault(fnty(s["r"]["ty"]), set()).add(o["fn"])
        # what trait objects are made of, by the trait object's type
        self.unsized = {}
        for f in self.fns.values():
            for b in f["blocks"]:
                for s in b["st"]:
                    if s["k"] == "=" and s["r"]["k"] == "cast" and "Unsize" in s["r"]["ck"] and "dyn " in s["r"]["ty"]:
                        o = s["r"]["o"][0]
                        src = strip_box(o["p"]["ty"] if o["k"] in ("copy", "move") else o.get("ty", ""))
                        if not src.startswith("dyn "):
                            self.unsized.setdefault(dynty(s["r"]["ty"]), set()).add((f["crate"], src))
        # closures in from_fn of which more is asked than to give one item after the other
        self.fromfn = set()
        for f in self.fns.values():
            for b in f["blocks"]:
                t = b["t"]
                for ty in [a["p"]["ty"] for a in t["a"] if a["k"] in ("copy", "move")] if t["k"] == "call" else ():
                    for c in re.findall(r"FromFn<(\{closure@[^}]*\})", ty):
                        if not re.fullmatch(r"std::iter::FromFn<\{closure@[^}]*\}>", strip_refs(ty)) or \
                                t["fun"].get("name") not in ("next", "into_iter", "by_ref", "fold", "for_each", "count", "last"):
                            self.fromfn.add((f["crate"], c))
        # methods of the workspace's traits: (trait, method) -> [(self type, id)]
        self.methods = {}
        for c, i in self.impl.items():
            m = re.match(r"(?:.*::)?<(.*) as ([^<> ]+)(?:<.*>)?>::(\w+)$", c)
            if m:
                self.methods.setdefault((m.group(2), m.group(3)), []).append((re.sub(r"'\w+ ?", "", m.group(1)), i))
        self.bins = sorted(c for c, j in self.crates.items() if not j.get("lib"))

    def canon(self, n):
        for c in self.crates:
            n = n.replace(c + "::", "")
        return n

    def find(self, n):
        """id of the workspace function a resolved name stands for"""
        if not n:
            return None
        if n in self.fns:
            return n
        return self.impl.get(self.canon(n)) if "<" in n else None

    def main(self, tool):
        return self.fns.get(tool + "::main")


def strip_refs(t):
    while True:
        t0 = t
        t = re.sub(r"^&('\w+ )?(mut )?", "", t)
        if t == t0:
            return t


def strip_box(t):
    """the type behind references and boxes"""
    while True:
        t0 = t
        t = strip_refs(t)
        m = re.match(r"std::boxed::Box<(.*)>$", t)
        if m:
            t = m.group(1)
        if t == t0:
            break
    return t[1:-1] if t.startswith("(dyn ") and t.endswith(")") else t


def dynty(t):
    t = strip_box(fnty(t))
    return re.sub(r"^\((.*)\)$", r"\1", re.sub(r" \+ *(?=[)>]|$)", "", t).strip())


def unify(pat, ty, sub):
    """what type parameters of the pattern stand for"""
    pat, ty = strip_refs(pat), strip_refs(ty)
    if pat == ty and not re.fullmatch(r"[A-Z]\w*", pat) or not ty:
        return
    if re.fullmatch(r"[A-Z]\w*", pat) and pat not in ("String", "Self") or pat.startswith("impl "):
        sub.setdefault(pat, ty)
        return
    if "<" in pat and pat.split("<")[0] == ty.split("<")[0]:
        a, b = generics(pat), generics(ty)
        if len(a) == len(b):
            for x, y in zip(a, b):
                unify(x, y, sub)


def hof_variant(path, name, i):
    if "option::Option" in path:
        if name == "map_or_else":
            return 0 if i == 1 else 1
        if name in ("unwrap_or_else", "or_else", "ok_or_else", "get_or_insert_with"):
            return 0
        if name in ("map", "and_then", "is_some_and", "map_or", "filter", "inspect", "is_none_or"):
            return 1
    if "result::Result" in path:
        if name == "map_or_else":
            return 1 if i == 1 else 0
        if name in ("unwrap_or_else", "or_else", "map_err", "is_err_and", "inspect_err"):
            return 1
        if name in ("map", "and_then", "is_ok_and", "map_or", "inspect"):
            return 0
    return None


SCALAR = {"u8", "u16", "u32", "u64", "usize", "u128", "i8", "i16", "i32", "i64", "isize", "i128", "bool", "char", "f64", "f32"}


def BOOL(v):
    return {"k": "const", "ty": "bool", "v": v}


def generics(t):
    """top-level type arguments of Name<A, B>"""
    i = t.find("<")
    if i < 0 or not t.endswith(">"):
        return []
    out, d, cur = [], 0, ""
    for j in range(i + 1, len(t) - 1):
        c = t[j]
        if c in "<([{":
            d += 1
        elif c in ")]}" or c == ">" and t[j - 1] != "-":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return [x for x in out if not re.fullmatch(r"'\w+", x)]


class Block:
    __slots__ = ("id", "st", "t", "fn", "stack", "succ", "pred", "extra")

    def __init__(self, i, fn, stack):
        self.id = i
        self.fn = fn
        self.stack = stack
        self.st = []
        self.t = None
        self.extra = None


def fnty(t):
    t = re.sub(r"for<[^>]*> ", "", t)
    return re.sub(r"'\w+ ?", "", t)


class Flat:
    """The flattened graph. Statements refer to global locals (gid)."""

    def __init__(self, world, root, maxblocks=60000, opaque=()):
        self.w = world
        self.opaque = set(opaque)
        self.blocks = []
        self.local_ty = []
        self.local_name = []
        self.local_fn = []
        self.maxblocks = maxblocks
        self.recursive = []
        self.fnmap = {}      # gid base per instance (debug)
        self.params = []
        f = world.fns[root]
        self.cur = f
        self.root = root
        entry, ret, g0 = self.inline(f, (root,))
        self.entry = entry
        self.ret_gid = g0
        self.params = [g0 + 1 + i for i in range(f["argc"])]
        self.ret_block = ret
        self.link()

    # -- construction
    def newlocals(self, f):
        base = len(self.local_ty)
        for l in f["locals"]:
            self.local_ty.append(l["ty"])
            self.local_name.append(l.get("n"))
            self.local_fn.append(f["id"])
        return base

    def tmp(self, ty, fn):
        self.local_ty.append(ty)
        self.local_name.append(None)
        self.local_fn.append(fn)
        return len(self.local_ty) - 1

    def newblock(self, fn, stack):
        b = Block(len(self.blocks), fn, stack)
        self.blocks.append(b)
        if len(self.blocks) > self.maxblocks:
            raise RuntimeError("flattened graph too large")
        return b

    def rp(self, base, p):
        pr = p.get("pr")
        q = {"l": base + p["l"], "ty": p.get("ty")}
        if pr:
            q["pr"] = [(["index", base + x[1]] if x[0] == "index" else x) for x in pr]
        return q

    def ro(self, base, o):
        if o["k"] in ("copy", "move"):
            return {"k": o["k"], "p": self.rp(base, o["p"])}
        return o

    def rr(self, base, r):
        r = dict(r)
        if "o" in r:
            r["o"] = [self.ro(base, x) for x in r["o"]]
        if "p" in r:
            r["p"] = self.rp(base, r["p"])
        return r

    def callee_body(self, f, t):
        """local body a call goes to, and the way its arguments are passed"""
        fun = t["fun"]
        if fun.get("k") == "const" and "fn" in fun:
            if fun.get("trait") and fun.get("self"):
                b = self.method(f, fun["trait"], fun["name"], fun["self"])
                if b:
                    return (b, "fn")
            for key in ("res", "fn"):
                n = fun.get(key)
                if n in self.opaque or fun["fn"] in self.opaque:
                    return None
                n = self.w.find(n)
                if n in self.opaque:
                    return None
                if n and not fun.get("virtual") and not fun.get("ctor"):
                    b = self.w.fns[n]
                    if b["kind"] == "Closure":
                        return (b, "closure")
                    return (b, "fn")
            if fun.get("trait", "").startswith("std::ops::Fn") and t["a"]:
                c = self.closure_of(f, fun.get("self", ""))
                if c:
                    return (self.body_of(f, fun.get("self", "")), "closure")
                c = self.item_of(f, fun.get("self", ""))
                if c:
                    return (self.w.fns[c], "fntup")
        return None

    def concrete(self, f, ty):
        """a type with the type parameter it consists of replaced: (type, parameters it is written in)"""
        ty, env = strip_refs(ty), f
        for _ in range(6):
            e = env.get("sub", {}).get(ty)
            if e is None:
                break
            ty, env = strip_refs(e[0]), e[1]
        return ty, env

    def closure_of(self, f, ty):
        ty, env = self.concrete(f, ty)
        if not ty.startswith("{closure@"):
            return None
        c = self.w.closure_ty.get((env["crate"], ty)) or self.w.closure_ty.get(ty)
        return c if c in self.w.fns else None

    def body_of(self, f, ty):
        """the body of a closure, with the type parameters of the function that made it"""
        c = self.w.fns[self.closure_of(f, ty)]
        ty, env = self.concrete(f, ty)
        return dict(c, sub=env["sub"]) if env.get("sub") else c

    def method(self, f, trait, name, ty):
        """the method of a workspace trait that is called on a type"""
        if strip_refs(ty) not in f.get("sub", {}):
            return None
        ty, env = self.concrete(f, ty)
        return self.impl_of(trait, name, ty, env)

    def impl_of(self, trait, name, ty, env=None):
        tr = self.w.canon(re.sub(r"<.*>$", "", trait))
        ty = re.sub(r"'\w+ ?", "", self.w.canon(ty))
        for pat, i in self.w.methods.get((tr, name), ()):
            sub = {}
            unify(pat, ty, sub)
            got = re.sub(r"\b[A-Z]\w*\b", lambda m: sub.get(m.group(0), m.group(0)), pat)
            if strip_refs(got) == strip_refs(ty) and i not in self.opaque:
                sub = {k: (v, env or self.cur) for k, v in sub.items() if k != v}
                return dict(self.w.fns[i], sub=dict(sub)) if sub else self.w.fns[i]
        b = self.w.find(trait + "::" + name)
        return dict(self.w.fns[b], sub={"Self": (ty, env or self.cur)}) if b else None

    def objects(self, f, fun):
        """bodies a call on a trait object can go to: [(what it is made of, body, how)], None if unknown"""
        ty = strip_box(fun.get("self", ""))
        if not ty.startswith("dyn "):
            return None
        out = []
        for crate, src in sorted(self.w.unsized.get(dynty(ty), ())):
            if src.startswith("{closure@") and fun.get("trait", "").startswith("std::ops::Fn"):
                c = self.w.closure_ty.get((crate, src)) or self.w.closure_ty.get(src)
                if c not in self.w.fns:
                    return None
                out.append((c, self.w.fns[c], "closure"))
                continue
            if fun.get("trait", "").split("::")[0] in ("std", "core", "alloc") or re.fullmatch(r"[A-Z]\w?", src):
                return None
            b = self.impl_of(fun["trait"], fun["name"], src)
            if not b:
                return None
            out.append((self.w.canon(re.sub(r"<.*", "", src)), b, "fn"))
        return out

    def item_of(self, f, ty):
        """the workspace function a type parameter stands for"""
        if strip_refs(ty) not in f.get("sub", {}):
            return None
        ty, env = self.concrete(f, ty)
        m = re.search(r"fn\(.*\{(.*)\}$", ty)
        if not m or ty.startswith("{"):
            return None
        n = re.sub(r"::<.*>$", "", m.group(1))
        n = self.w.find(n)
        return n if n and n not in self.opaque and not n.endswith("}") else None

    def bind(self, body, args):
        """body with what the arguments say about its type parameters"""
        if body["kind"] == "Closure":
            return body
        sub = {}
        for j, a in enumerate(args):
            if j >= body["argc"]:
                break
            ty = a["p"]["ty"] if a["k"] in ("copy", "move") else a.get("ty", "")
            unify(body["locals"][1 + j]["ty"], ty or "", sub)
        sub = {k: (v, self.cur) for k, v in sub.items() if v != k or self.cur.get("sub", {}).get(v)}
        sub = {k: v for k, v in sub.items() if self.concrete(v[1], v[0])[0] != k}
        sub = dict(body.get("sub", {}), **sub)
        return dict(body, sub=sub) if sub else body

    def inline(self, f, stack):
        cur, self.cur = self.cur, f
        r = self.inline1(f, stack)
        self.cur = cur
        return r

    def inline1(self, f, stack):
        base = self.newlocals(f)
        m = {}
        live = self.reach(f)
        for i in live:
            m[i] = self.newblock(f["id"], stack)
        ret = self.newblock(f["id"], stack)
        ret.t = {"k": "ret", "f": f["f"], "ln": f["ln"]}
        for i in live:
            b = f["blocks"][i]
            nb = m[i]
            for s in b["st"]:
                if s["k"] == "=":
                    nb.st.append({"k": "=", "p": self.rp(base, s["p"]), "r": self.rr(base, s["r"]), "f": s["f"],
                                  "ln": s["ln"], "mac": s.get("mac", ())})
                elif s["k"] == "setd":
                    nb.st.append({"k": "setd", "p": self.rp(base, s["p"]), "v": s["v"], "f": s["f"], "ln": s["ln"]})
                elif s["k"] in ("live", "dead"):
                    nb.st.append({"k": s["k"], "l": base + s["l"]})
            t = b["t"]
            loc = {"f": t.get("f"), "ln": t.get("ln"), "mac": t.get("mac", ())}
            k = t["k"]
            if k == "goto":
                nb.t = dict(k="goto", t=m[t["t"]], **loc)
            elif k == "switch":
                nb.t = dict(k="switch", o=self.ro(base, t["o"]), ts=[(v, m[x]) for v, x in t["ts"]],
                            ow=m[t["ow"]], **loc)
            elif k == "return":
                nb.t = dict(k="goto", t=ret, **loc)
            elif k == "drop":
                nb.t = dict(k="drop", p=self.rp(base, t["p"]), t=m[t["t"]], **loc)
            elif k == "assert":
                nb.t = dict(k="assert", c=self.ro(base, t["c"]), e=t["e"], m=t.get("m"), t=m[t["t"]],
                            mo=[self.ro(base, x) for x in t.get("mo", [])], **loc)
            elif k == "call":
                self.call(f, base, nb, t, m, stack, loc)
            else:
                nb.t = dict(k="unreachable" if k == "unreachable" else "stop", why=k, **loc)
        return m[0], ret, base

    def reach(self, f):
        seen, todo, order = {0}, [0], []
        while todo:
            i = todo.pop(0)
            order.append(i)
            t = f["blocks"][i]["t"]
            nx = []
            if t["k"] == "switch":
                nx = [x for _, x in t["ts"]] + [t["ow"]]
            elif t.get("t") is not None:
                nx = [t["t"]]
            for x in nx:
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        return order

    def call(self, f, base, nb, t, m, stack, loc):
        fun = t["fun"]
        args = [self.ro(base, a) for a in t["a"]]
        dest = self.rp(base, t["d"])
        cont = m[t["t"]] if t["t"] is not None else None
        cb = self.callee_body(f, t)
        if fun.get("k") in ("copy", "move"):
            fun = self.ro(base, fun)
        if cb and cb[0]["id"] in stack:
            self.recursive.append((cb[0]["id"], stack))
            cb = None
        if cb and len(stack) < 30:
            body, how = cb
            self.splice(nb, body, how, args, dest, cont, stack, loc)
            return
        if fun.get("k") in ("copy", "move"):
            ct = dict(k="call", fun=fun, a=args, d=dest, t=cont, **loc)
            cands = sorted(c for c in self.w.reified.get(fnty(fun["p"]["ty"]), ()) if c in self.w.fns and c not in stack)
            if cands:
                ents = []
                for c in cands:
                    e = self.newblock(f["id"], stack)
                    if c in self.opaque:
                        e.t = dict(k="call", fun={"k": "const", "fn": c, "ga": [], "name": c.split("::")[-1]}, a=args,
                                   d=dest, t=cont, **loc)
                    else:
                        self.splice(e, self.w.fns[c], "fn", args, dest, cont, stack, loc)
                    ents.append(e)
                nb.t = dict(k="nondet", ts=ents, fnptr=fun, cands=cands, **loc)
                return
        if fun.get("fn") == "std::default::Default::default" and cont is not None:
            ty = self.concrete(f, fun.get("self", ""))[0]
            g = re.match(r"(std::vec::Vec|std::string::String|std::collections::\w+)(<|$)", ty)
            r = None
            if ty in SCALAR and ty[0] != "f":
                r = {"k": "use", "o": [{"k": "const", "ty": ty, "v": 0}]}
            elif ty.startswith("std::option::Option<"):
                r = {"k": "agg", "ak": "adt", "adt": "std::option::Option", "vi": 0, "vn": "None", "fs": [], "o": []}
            elif g:
                fun = {"k": "const", "fn": g.group(1) + ("::<T>::new" if generics(ty) else "::new"), "ga": generics(ty), "name": "new"}
            if r:
                nb.st.append({"k": "=", "p": dest, "r": r, "f": loc["f"], "ln": loc["ln"], "mac": loc["mac"]})
                nb.t = dict(k="goto", t=cont, **loc)
                return
        if self.iterate(f, nb, fun, args, dest, cont, stack, loc):
            return
        if self.desugar(f, nb, fun, args, dest, cont, stack, loc):
            return
        objs = self.objects(f, fun) if fun.get("self") and args and "dyn " in fun["self"] else None
        if objs and not any(b["id"] in stack for _, b, _ in objs) and len(stack) < 30:
            ents = []
            for _, b, how in objs:
                e = self.newblock(f["id"], stack)
                self.splice(e, b, how, args, dest, cont, stack, loc)
                ents.append(e)
            nb.t = dict(k="nondet", ts=ents, dynobj=args[0], cands=[c for c, _, _ in objs], **loc)
            return
        # closures (and workspace functions) handed to foreign code
        hofs = []
        for i, a in enumerate(args):
            ty = a["p"]["ty"] if a["k"] in ("copy", "move") else a.get("ty", "")
            c = None
            if a["k"] == "const" and a.get("fn") in self.w.fns and not a.get("ctor"):
                c = a["fn"]
            elif a["k"] in ("copy", "move"):
                c = self.closure_of(f, ty)
            if c and c not in stack:
                hofs.append((i, self.w.fns[c] if a["k"] == "const" else self.body_of(f, ty)))
        ct = dict(k="call", fun=fun, a=args, d=dest, t=cont, **loc)
        if not hofs:
            nb.t = ct
            return
        name = fun.get("fn", "")
        once = re.match(r"(std|core)::(option::Option|result::Result|bool)", name) is not None or \
            fun.get("name") in ("then", "then_some", "unwrap_or_else", "get_or_init", "new_scoped", "spawn")
        # nb: goto head ; head -> (closure...)* -> callblock
        head = self.newblock(f["id"], stack)
        callb = self.newblock(f["id"], stack)
        ct["hof"] = []
        callb.t = ct
        nb.t = dict(k="goto", t=head, **loc)
        ent = []
        for i, body in hofs:
            e = self.newblock(f["id"], stack)
            r = self.tmp(body["locals"][0]["ty"], f["id"])
            hargs = []
            params = body["argc"] - (1 if body["kind"] == "Closure" else 0)
            off = 2 if body["kind"] == "Closure" else 1
            for j in range(params):
                pt = body["locals"][off + j]["ty"]
                g = self.tmp(pt, f["id"])
                e.st.append({"k": "=", "p": {"l": g, "ty": pt},
                             "r": {"k": "hofarg", "callee": name, "name": fun.get("name"), "j": j, "i": i,
                                   "o": [a for n, a in enumerate(args) if n != i]}, "f": loc["f"],
                             "ln": loc["ln"], "mac": loc["mac"]})
                hargs.append({"k": "move", "p": {"l": g, "ty": pt}})
            how = "closure" if body["kind"] == "Closure" else "fn"
            if how == "closure":
                a0 = args[i]
                a0 = {"k": "copy", "p": a0["p"]}
                hargs = [a0] + hargs
            self.splice(e, body, "hof-" + how, hargs, {"l": r, "ty": body["locals"][0]["ty"]},
                        callb if once else head, stack, loc)
            ct["hof"].append((i, {"k": "copy", "p": {"l": r, "ty": body["locals"][0]["ty"]}}))
            ent.append(e)
        head.t = dict(k="nondet", ts=ent + [callb], **loc)
        if once:
            want = [hof_variant(name, fun.get("name"), i) for i, _ in hofs]
            head.t["recv"] = args[0]
            head.t["want"] = want  # per closure: discriminant of the receiver for which it is called

    def own_iter(self, f, ty):
        """(body, is it a closure in from_fn) of `next`, when the workspace says what it does"""
        ty, env = self.concrete(f, ty)
        m = re.match(r"std::iter::FromFn<(\{closure@.*\})>$", ty)
        if m:
            if (env["crate"], m.group(1)) in self.w.fromfn:
                return None
            return (self.body_of(env, m.group(1)), m.group(1)) if self.closure_of(env, m.group(1)) else None
        if ty.startswith(("std::", "core::", "alloc::", "&", "dyn ", "{", "[", "(")):
            return None
        b = self.impl_of("std::iter::Iterator", "next", ty, env)
        return (b, None) if b else None

    def iterate(self, f, nb, fun, args, dest, cont, stack, loc):
        """iterators that the workspace defines: `next`, loops over them, and what is defined by such a loop"""
        name, last = fun.get("fn", ""), fun.get("name", "")
        fn = f["id"]

        def assign(b, p, r):
            b.st.append({"k": "=", "p": p, "r": r, "f": loc["f"], "ln": loc["ln"], "mac": loc["mac"]})

        if cont is None or not args:
            return False
        a = args[0]
        if last == "from_fn" and name.split("::")[0] in ("std", "core"):
            ty = self.concrete(f, a["p"]["ty"])[0] if a["k"] in ("copy", "move") else ""
            if not self.closure_of(f, ty) or (f["crate"], ty) in self.w.fromfn:
                return False
            assign(nb, dest, {"k": "agg", "ak": "adt", "adt": "std::iter::FromFn", "vi": 0, "vn": "FromFn", "fs": ["0"], "o": [a]})
            nb.t = dict(k="goto", t=cont, **loc)
            return True
        if not re.search(r"iter::(\w+::)*(Iterator|IntoIterator)", name + fun.get("trait", "")) or a["k"] not in ("copy", "move"):
            return False
        if last not in ("next", "into_iter", "by_ref", "fold", "for_each", "count", "last"):
            return False
        it = self.own_iter(f, a["p"]["ty"])
        if not it or it[0]["id"] in stack or len(stack) > 28:
            return False
        if last in ("into_iter", "by_ref"):
            assign(nb, dest, {"k": "use", "o": [a]})
            nb.t = dict(k="goto", t=cont, **loc)
            return True
        g = self.tmp(a["p"]["ty"], fn)
        place = {"l": g, "ty": a["p"]["ty"]}
        assign(nb, place, {"k": "use", "o": [a]})
        whole = dict(place)
        for _ in range(8):
            if not whole["ty"].startswith("&"):
                break
            whole = {"l": g, "pr": list(whole.get("pr", ())) + [["deref"]], "ty": re.sub(r"^&('\w+ )?(mut )?", "", whole["ty"])}
        body, clos = it

        def step(b, d, to):
            if clos:
                q = {"l": g, "pr": list(whole.get("pr", ())) + [["field", 0, "0", clos, "std::iter::FromFn"]], "ty": clos}
                self.splice(b, body, "hof-closure", [{"k": "copy", "p": q}], d, to, stack, loc)
            else:
                r = self.tmp("&mut " + whole["ty"], fn)
                assign(b, {"l": r, "ty": "&mut " + whole["ty"]}, {"k": "ref", "mut": True, "p": whole})
                self.splice(b, body, "own", [{"k": "move", "p": {"l": r, "ty": "&mut " + whole["ty"]}}], d, to, stack, loc)

        if last == "next":
            step(nb, dest, cont)
            return True
        item = generics(body["locals"][0]["ty"])
        item = item[0] if item else ""
        acc = {"l": self.tmp(dest["ty"], fn), "ty": dest["ty"]}
        F = None
        if last in ("fold", "for_each"):
            F = args[-1]
            if F["k"] == "const" and F.get("fn") in self.w.fns and F["fn"] not in stack and not F.get("ctor"):
                F = self.w.fns[F["fn"]]
            elif F["k"] in ("copy", "move") and self.closure_of(f, F["p"]["ty"]) and self.closure_of(f, F["p"]["ty"]) not in stack:
                F = self.body_of(f, F["p"]["ty"])
            else:
                return False
        if last == "fold":
            assign(nb, acc, {"k": "use", "o": [args[1]]})
        elif last == "count":
            assign(nb, acc, {"k": "use", "o": [{"k": "const", "ty": "usize", "v": 0}]})
        elif last == "last":
            assign(nb, acc, {"k": "agg", "ak": "adt", "adt": "std::option::Option", "vi": 0, "vn": "None", "fs": [], "o": []})
        head, some, none, test, un = [self.newblock(fn, stack) for _ in range(5)]
        nb.t = dict(k="goto", t=head, **loc)
        oty = body["locals"][0]["ty"]
        o = {"l": self.tmp(oty, fn), "ty": oty}
        dp = {"l": self.tmp("isize", fn), "ty": "isize"}
        step(head, o, test)
        assign(test, dp, {"k": "discr", "p": o})
        un.t = dict(k="unreachable", why="unreachable", **loc)
        test.t = dict(k="switch", o={"k": "move", "p": dp}, ts=[(0, none), (1, some)], ow=un, **loc)
        x = {"k": "move", "p": {"l": o["l"], "pr": [["down", 1, "Some"], ["field", 0, "0", item, "std::option::Option"]], "ty": item}}
        if last == "last":
            assign(some, acc, {"k": "use", "o": [{"k": "move", "p": o}]})
            some.t = dict(k="goto", t=head, **loc)
        elif last == "count":
            assign(some, acc, {"k": "bin", "op": "Add", "ty": "usize", "o": [{"k": "copy", "p": acc}, {"k": "const", "ty": "usize", "v": 1}]})
            some.t = dict(k="goto", t=head, **loc)
        else:
            xs = ([{"k": "move", "p": acc}] if last == "fold" else []) + [x]
            d = {"l": self.tmp(dest["ty"], fn), "ty": dest["ty"]}
            back = self.newblock(fn, stack)
            if last == "fold":
                assign(back, acc, {"k": "use", "o": [{"k": "move", "p": d}]})
            back.t = dict(k="goto", t=head, **loc)
            if F["kind"] == "Closure":
                self.splice(some, F, "hof-closure", [{"k": "copy", "p": args[-1]["p"]}] + xs, d, back, stack, loc)
            else:
                self.splice(some, F, "fn", xs, d, back, stack, loc)
        if last != "for_each":
            assign(none, dest, {"k": "use", "o": [{"k": "move", "p": acc}]})
        none.t = dict(k="goto", t=cont, **loc)
        return True

    def desugar(self, f, nb, fun, args, dest, cont, stack, loc):
        """Option/Result/bool combinators, written out as the match they are defined to be"""
        name, last = fun.get("fn", ""), fun.get("name", "")
        kind = "O" if re.match(r"(std|core)::option::Option", name) else "R" if re.match(r"(std|core)::result::Result", name) else \
            "B" if re.match(r"(std|core)::bool::", name) else None
        if kind is None or cont is None or not args:
            return False
        S = args[0]
        sty = S["p"]["ty"] if S["k"] in ("copy", "move") else S.get("ty", "")
        byref = last in ("as_ref", "as_mut", "as_deref", "as_deref_mut", "is_some", "is_none", "is_ok", "is_err")
        if byref and last.startswith("is_"):
            return False
        inner = generics(strip_refs(sty)) if kind != "B" else []
        if kind != "B" and len(inner) != (1 if kind == "O" else 2):
            return False
        if sty.startswith("&") != byref:
            return False
        good = 1 if kind != "R" else 0
        V = {"O": {1: "Some", 0: "None"}, "R": {0: "Ok", 1: "Err"}, "B": {}}[kind]
        adt = {"O": "std::option::Option", "R": "std::result::Result"}.get(kind)
        fn = f["id"]

        def assign(b, p, r):
            b.st.append({"k": "=", "p": p, "r": r, "f": loc["f"], "ln": loc["ln"], "mac": loc["mac"]})

        # the value to decide on
        g = self.tmp(sty, fn)
        sp = {"l": g, "ty": sty}
        base = {"l": g, "pr": [["deref"]], "ty": strip_refs(sty)} if byref else sp

        def payload(v):
            ty = inner[0] if v == good else inner[-1]
            return {"l": g, "pr": list(base.get("pr", ())) + [["down", v, V[v]], ["field", 0, "0", ty, strip_refs(sty)]], "ty": ty}

        def mkagg(vn, o):
            ad, vi = {"Some": ("std::option::Option", 1), "None": ("std::option::Option", 0), "Ok": ("std::result::Result", 0),
                      "Err": ("std::result::Result", 1)}[vn]
            return {"k": "agg", "ak": "adt", "adt": ad, "vi": vi, "vn": vn, "fs": ["0"] if o else [], "o": o}

        def callv(b, i, xs, d, to):
            """b: d = args[i](xs); goto to. False if unknown what is called"""
            a = args[i]
            if a["k"] == "const" and "fn" in a:
                n = a.get("res") or a["fn"]
                n = self.w.find(n) or self.w.find(a["fn"])
                if n and not a.get("ctor") and n not in self.opaque:
                    if n in stack:
                        return False
                    self.splice(b, self.w.fns[n], "fn", xs, d, to, stack, loc)
                else:
                    b.t = dict(k="call", fun=a, a=xs, d=d, t=to, **loc)
                return True
            if a["k"] in ("copy", "move"):
                c = self.closure_of(f, a["p"]["ty"])
                if c and c not in stack:
                    self.splice(b, self.body_of(f, a["p"]["ty"]), "hof-closure", [{"k": "copy", "p": a["p"]}] + xs, d, to, stack, loc)
                    return True
            return False

        def callable_(i):
            a = args[i]
            if a["k"] == "const" and "fn" in a:
                return self.w.find(a["fn"]) not in stack
            c = a["k"] in ("copy", "move") and self.closure_of(f, a["p"]["ty"])
            return bool(c) and c not in stack

        def restype(i):
            """type of what args[i] returns"""
            a = args[i]
            if a["k"] == "const":
                n = self.w.find(a["fn"])
                return self.w.fns[n]["locals"][0]["ty"] if n else ""
            return self.w.fns[self.closure_of(f, a["p"]["ty"])]["locals"][0]["ty"]

        mv = lambda p: {"k": "move", "p": p}
        dty = dest.get("ty", "")
        dg = generics(dty)
        use = lambda o: {"k": "use", "o": [o]}
        # per variant: what happens. ("use", operand) | ("agg", vn, operands) | ("call", i, operands, wrap)
        p0 = payload(good) if kind != "B" else None
        p1 = payload(1 - good) if kind == "R" else None
        keep = ("agg", V.get(1 - good), [mv(p1)] if kind == "R" else [])
        x0 = [mv(p0)] if p0 else []
        xe = [mv(p1)] if kind == "R" else []
        ok = V.get(good)
        plan = None
        if last == "map":
            plan = (("call", 1, x0, ok), keep)
        elif last == "and_then":
            plan = (("call", 1, x0, None), keep)
        elif last == "map_err" and kind == "R":
            plan = (("agg", "Ok", x0), ("call", 1, xe, "Err"))
        elif last == "or_else":
            plan = (("agg", ok, x0), ("call", 1, xe, None))
        elif last == "unwrap_or_else":
            plan = (("use", x0[0]) if x0 else None, ("call", 1, xe, None))
        elif last == "unwrap_or":
            plan = (("use", x0[0]) if x0 else None, ("use", args[1]))
        elif last == "map_or":
            plan = (("call", 2, x0, None), ("use", args[1]))
        elif last == "map_or_else":
            plan = (("call", 2, x0, None), ("call", 1, xe, None))
        elif last == "ok" and kind == "R":
            plan = (("agg", "Some", x0), ("agg", "None", []))
        elif last == "err" and kind == "R":
            plan = (("agg", "None", []), ("agg", "Some", xe))
        elif last == "ok_or" and kind == "O":
            plan = (("agg", "Ok", x0), ("agg", "Err", [args[1]]))
        elif last == "ok_or_else" and kind == "O":
            plan = (("agg", "Ok", x0), ("call", 1, [], "Err"))
        elif last in ("is_some_and", "is_ok_and"):
            plan = (("call", 1, x0, None), ("use", BOOL(0)))
        elif last == "is_none_or":
            plan = (("call", 1, x0, None), ("use", BOOL(1)))
        elif last == "is_err_and":
            plan = (("use", BOOL(0)), ("call", 1, xe, None))
        elif last == "or" and kind in "OR":
            plan = (("agg", ok, x0), ("use", args[1]))
        elif last == "and" and kind in "OR":
            plan = (("use", args[1]), keep)
        elif last in ("copied", "cloned") and kind in "OR" and inner[0].startswith("&"):
            ty = strip_refs(inner[0])
            if last == "cloned" and ty not in SCALAR:
                return False
            q = dict(p0, pr=p0["pr"] + [["deref"]], ty=ty)
            plan = (("agg", ok, [{"k": "copy", "p": q}]), keep)
        elif last in ("as_ref", "as_deref", "as_mut", "as_deref_mut"):
            plan = (("ref", p0, dg[0] if dg else "", ok), ("ref", p1, dg[-1], V[1 - good]) if kind == "R" else ("agg", "None", []))
        elif last == "then" and kind == "B":
            plan = (("call", 1, [], "Some"), ("agg", "None", []))
        elif last == "then_some" and kind == "B":
            plan = (("agg", "Some", [args[1]]), ("agg", "None", []))
        if plan is None or None in plan:
            return False
        for a in plan:
            if a[0] == "call" and (a[1] >= len(args) or not callable_(a[1])):
                return False
        assign(nb, sp, use(S))
        d = self.tmp("isize" if kind != "B" else "bool", fn)
        dp = {"l": d, "ty": "isize" if kind != "B" else "bool"}
        assign(nb, dp, {"k": "discr", "p": base} if kind != "B" else use({"k": "copy", "p": sp}))
        bg, bb = self.newblock(fn, stack), self.newblock(fn, stack)
        if kind == "B":
            nb.t = dict(k="switch", o=mv(dp), ts=[(0, bb)], ow=bg, **loc)
        else:
            un = self.newblock(fn, stack)
            un.t = dict(k="unreachable", why="unreachable", **loc)
            nb.t = dict(k="switch", o=mv(dp), ts=[(good, bg), (1 - good, bb)], ow=un, **loc)
        for b, a in ((bg, plan[0]), (bb, plan[1])):
            if a[0] == "use":
                assign(b, dest, use(a[1]))
                b.t = dict(k="goto", t=cont, **loc)
            elif a[0] == "agg":
                assign(b, dest, mkagg(a[1], a[2]))
                b.t = dict(k="goto", t=cont, **loc)
            elif a[0] == "ref":
                r = self.tmp(a[2], fn)
                if a[1]["ty"].startswith("&") and "deref" in last:
                    assign(b, {"l": r, "ty": a[2]}, use({"k": "copy", "p": a[1]}))
                else:
                    assign(b, {"l": r, "ty": a[2]}, {"k": "ref", "mut": "mut" in last, "p": a[1]})
                assign(b, dest, mkagg(a[3], [mv({"l": r, "ty": a[2]})]))
                b.t = dict(k="goto", t=cont, **loc)
            elif a[3] is None:
                callv(b, a[1], a[2], dest, cont)
            else:
                ty = dg[-1] if a[3] == "Err" and len(dg) == 2 else dg[0] if dg else ""
                r = self.tmp(ty, fn)
                e = self.newblock(fn, stack)
                assign(e, dest, mkagg(a[3], [mv({"l": r, "ty": ty})]))
                e.t = dict(k="goto", t=cont, **loc)
                callv(b, a[1], a[2], {"l": r, "ty": ty}, e)
        return True

    def splice(self, nb, body, how, args, dest, cont, stack, loc):
        body = self.bind(body, args) if how == "fn" else body
        entry, ret, g0 = self.inline(body, stack + (body["id"],))
        bnd = []
        if how == "fntup":
            tup = args[1]
            for j in range(body["argc"]):
                pt = body["locals"][1 + j]["ty"]
                if tup["k"] == "const":
                    bnd.append((g0 + 1 + j, tup, pt))
                else:
                    q = dict(tup["p"])
                    q["pr"] = list(q.get("pr", [])) + [["field", j, str(j), pt, "(tuple)"]]
                    q["ty"] = pt
                    bnd.append((g0 + 1 + j, {"k": "copy", "p": q}, pt))
        elif how in ("closure",):
            # Fn*::call(env, (args,)) : args are a tuple
            env_ty = body["locals"][1]["ty"]
            bnd.append((g0 + 1, args[0], env_ty))
            n = body["argc"] - 1
            if len(args) > 1:
                tup = args[1]
                for j in range(n):
                    pt = body["locals"][2 + j]["ty"]
                    if tup["k"] == "const":
                        bnd.append((g0 + 2 + j, tup, pt))
                    else:
                        q = dict(tup["p"])
                        q["pr"] = list(q.get("pr", [])) + [["field", j, str(j), pt, "(tuple)"]]
                        q["ty"] = pt
                        bnd.append((g0 + 2 + j, {"k": "copy", "p": q}, pt))
        elif how == "hof-closure":
            bnd.append((g0 + 1, args[0], body["locals"][1]["ty"]))
            for j, a in enumerate(args[1:]):
                bnd.append((g0 + 2 + j, a, body["locals"][2 + j]["ty"]))
        else:
            for j, a in enumerate(args):
                bnd.append((g0 + 1 + j, a, body["locals"][1 + j]["ty"]))
        for g, a, ty in bnd:
            r = {"k": "use", "o": [a]}
            if how in ("closure", "hof-closure") and g == g0 + 1 and a["k"] != "const":
                aty = a["p"]["ty"]
                if ty.startswith("&") and not aty.startswith("&"):
                    r = {"k": "ref", "mut": ty.startswith("&mut") or "mut " in ty[:12], "p": a["p"]}
                elif not ty.startswith("&") and aty.startswith("&"):
                    q = dict(a["p"])
                    q["pr"] = list(q.get("pr", [])) + [["deref"]]
                    r = {"k": "use", "o": [{"k": "copy", "p": q}]}
            nb.st.append({"k": "=", "p": {"l": g, "ty": ty}, "r": r, "f": loc["f"], "ln": loc["ln"], "mac": loc["mac"]})
        nb.t = dict(k="goto", t=entry, **loc)
        nb.t["enter"] = body["id"]
        if cont is not None:
            ret.st.append({"k": "=", "p": dest, "r": {"k": "use", "o": [{"k": "move", "p": {"l": g0, "ty": body["locals"][0]["ty"]}}]},
                           "f": loc["f"], "ln": loc["ln"], "mac": loc["mac"]})
            ret.t = dict(k="goto", t=cont, **loc)
        else:
            ret.t = dict(k="stop", why="noreturn", **loc)

    def link(self):
        for b in self.blocks:
            t = b.t
            k = t["k"]
            if k in ("goto", "drop", "assert"):
                b.succ = [t["t"].id]
            elif k == "switch":
                b.succ = []
                for x in [x for _, x in t["ts"]] + [t["ow"]]:
                    if x.id not in b.succ:
                        b.succ.append(x.id)
            elif k == "nondet":
                b.succ = [x.id for x in t["ts"]]
            elif k == "call":
                b.succ = [t["t"].id] if t["t"] is not None else []
            else:
                b.succ = []
        for b in self.blocks:
            b.pred = []
        for b in self.blocks:
            for s in b.succ:
                self.blocks[s].pred.append(b.id)
