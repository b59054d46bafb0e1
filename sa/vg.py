"""Flow-sensitive value graph of a flattened program: every value is a hash-consed node, memory cells are
tracked through references, joins become phi nodes, branches on constants are followed on one side only."""
import re, sys

sys.setrecursionlimit(20000)

INT = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1),
       "u128": (0, 2**128 - 1), "i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1),
       "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1), "i128": (-2**127, 2**127 - 1),
       "bool": (0, 1), "char": (0, 0x10ffff)}


def short(name):
    """std::vec::Vec::<T, A>::push -> std::vec::Vec::push ; core::slice::<impl [T]>::reverse -> core::slice::reverse"""
    out, d = [], 0
    i = 0
    while i < len(name):
        c = name[i]
        if c == "<":
            d += 1
        elif c == ">" and name[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    s = "".join(out)
    s = re.sub(r"(::)+", "::", s)
    return s.strip(":")


def mayref(ty):
    return "&" in ty or "'" in ty or "dyn " in ty or "*" in ty or "closure" in ty or "impl " in ty \
        or re.fullmatch(r"[A-Z]", ty) is not None


NOEFF = {"iter_mut", "last_mut", "first_mut", "get_mut", "back_mut", "front_mut", "chunks_mut", "by_ref", "values_mut",
         "as_mut", "borrow_mut", "split_at_mut", "as_mut_ptr", "entry", "chunks_exact_mut", "peek", "lock", "get_ref",
         "as_mut_slice", "deref_mut", "as_deref_mut", "make_mut", "rev", "as_deref", "spare_capacity_mut"}

CMP = {"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}

RC = re.compile(r"(::|^)(Rc|Arc|RefCell|Ref|RefMut|Cell|Mutex|MutexGuard|OnceCell)<")


class VG:
    def __init__(self, flat, seeds=None, maxvisits=40):
        self.flat = flat
        self.seeds = seeds or {}
        self.n = []
        self.ids = {}
        self.alias_of = {}
        self.phis = {}
        self.phi_alive = {}
        self.visits = {}
        self.maxvisits = maxvisits
        self.events = {}
        self.trace = {}
        self.cond = {}
        self.bin2 = set()
        self.hofrecv = {}
        self.seedcell = {}
        self.inproj = set()
        self.heads = set()
        self.UNDEF = self.mk("undef")
        self.run()

    # ---- nodes
    def mk(self, *t):
        i = self.ids.get(t)
        if i is None:
            i = len(self.n)
            self.ids[t] = i
            self.n.append(t)
        return i

    def const(self, ty, v):
        if isinstance(v, int) and ty in INT:
            lo, hi = INT[ty]
            if not lo <= v <= hi:
                m = hi - lo + 1
                v = (v - lo) % m + lo
        return self.mk("const", ty, v)

    def cval(self, n):
        t = self.n[n]
        return t[2] if t[0] == "const" and isinstance(t[2], int) else None

    def cbytes(self, n):
        """bytes of a constant byte string / string"""
        t = self.n[n]
        if t[0] == "const" and isinstance(t[2], tuple) and t[2][0] == "bytes":
            return bytes(t[2][1])
        if t[0] == "agg" and t[1][0] == "array":
            vs = [self.cval(c) for c in t[2]]
            if all(v is not None for v in vs):
                return bytes(v & 255 for v in vs)
        return None

    def agg(self, kind, adt, vi, vn, fs, ch):
        return self.mk("agg", (kind, adt, vi, vn, fs), tuple(ch))

    # ---- projections
    def proj(self, n, step):
        t = self.n[n]
        k = t[0]
        if step[0] == "v":
            if k == "branch" and step[1] in (0, 1):
                return t[3 + step[1]]
            if k == "agg":
                return n if t[1][2] == step[1] else self.mk("proj", n, step)
            if k == "phi":
                c, seen, joins, todo = set(), {n}, {t[1]}, list(self.phi_ops(n))
                while todo:
                    a = todo.pop()
                    if a in seen:
                        continue
                    seen.add(a)
                    at = self.n[a]
                    if at[0] == "agg" and at[1][2] != step[1]:
                        continue
                    if at[0] == "phi":
                        joins.add(at[1])
                        todo += self.phi_ops(a)
                        continue
                    c.add(self.proj(a, step))
                if len(c) == 1 and all(self.timeless(b, c) for b in joins):
                    return c.pop()
            if k == "upd" and t[2][0] == "v" and t[2][1] == step[1]:
                return t[3]
            return self.mk("proj", n, step)
        if step[0] == "f":
            if k == "agg":
                if step[1] < len(t[2]):
                    return t[2][step[1]]
                return self.mk("proj", n, step)
            if k == "upd":
                if t[2][0] == "f":
                    return t[3] if t[2][1] == step[1] else self.proj(t[1], step)
            if k == "phi":
                if (n, step) in self.inproj:
                    return None
                self.inproj.add((n, step))
                c = set()
                for a in self.phi_ops(n):
                    if a == n:
                        continue
                    at = self.n[a]
                    if at[0] in ("agg", "upd"):
                        c.add(self.proj(a, step))
                    else:
                        c.add(self.mk("proj", a, step))
                self.inproj.discard((n, step))
                c.discard(None)
                if len(c) == 1 and self.timeless(t[1], c):
                    return c.pop()
            if k == "param" and self.seeds and t[1] == "*self" and ("*self", step[2]) in self.seeds:
                return self.const(*self.seeds[("*self", step[2])])
            if k == "const" and isinstance(t[2], tuple) and t[2][0] == "tuple":
                return t[2][1][step[1]]
            if k == "call" and self.seeds and step[2] in self.seeds and self.is_parse(t):
                return self.seed(step[2])
            if k == "proj" and self.seeds and step[2] in self.seeds:
                b = t
                while b[0] == "proj":
                    b = self.n[b[1]]
                if b[0] == "call" and self.is_parse(b) and t[2][0] == "v":
                    return self.seed(step[2])
            return self.mk("proj", n, step)
        if step[0] == "i":
            if k == "store":
                if t[2] == step[1]:
                    return t[3]
                a, b = self.cval(t[2]), self.cval(step[1])
                if a is not None and b is not None and a != b:
                    return self.proj(t[1], step)
            c = self.cval(step[1])
            if c is not None:
                if k == "agg" and t[1][0] == "array" and 0 <= c < len(t[2]):
                    return t[2][c]
                bs = self.cbytes(n)
                if bs is not None and c < len(bs):
                    return self.const("u8", bs[c])
            if k == "repeat":
                return t[1]
            return self.mk("proj", n, step)
        return self.mk("proj", n, step)

    def timeless(self, b, c):
        """may the only alternative of a join stand for it? At the head of a loop it may be a value of the round before"""
        if b not in self.heads:
            return True
        todo, seen = list(c), set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            t = self.n[x]
            if t[0] in ("call", "hofarg", "phi", "eff", "load", "with", "op", "cast", "store", "wstore"):
                return False
            if t[0] == "agg":
                todo += t[2]
            elif t[0] in ("proj", "at", "upd"):
                todo.append(t[1])
        return True

    def is_parse(self, t):
        return t[2].split("::")[-1] in ("parse", "try_parse", "parse_from") and "clap" in t[2]

    def seed(self, name):
        v = self.seeds[name]
        if isinstance(v, tuple) and v[0] == "const":
            return self.const(v[1], v[2])
        if isinstance(v, tuple) and v[0] == "variant":
            return self.agg("adt", v[1], v[2], v[3], (), [self.mk("sym", name, i) for i in range(v[4])])
        return self.mk("sym", name, v)

    def upd(self, n, path, val):
        if not path:
            return val
        step = path[0]
        t = self.n[n]
        if step[0] == "v":
            if t[0] == "agg" and t[1][2] == step[1]:
                return self.upd(n, path[1:], val)
            if len(path) == 1:
                return val
            return self.mk("upd", n, step, self.upd(self.proj(n, step), path[1:], val))
        child = self.proj(n, step) if len(path) > 1 else None
        nv = self.upd(child, path[1:], val) if len(path) > 1 else val
        if step[0] == "f":
            if t[0] == "agg" and step[1] < len(t[2]):
                ch = list(t[2])
                ch[step[1]] = nv
                return self.mk("agg", t[1], tuple(ch))
            if t[0] == "upd" and t[2] == step:
                return self.mk("upd", t[1], step, nv)
            return self.mk("upd", n, step, nv)
        if step[0] == "i":
            return self.mk("store", n, step[1], nv)
        return self.mk("upd", n, step, nv)

    def phi_ops(self, n):
        t = self.n[n]
        return list(self.phis.get((t[1], t[2]), {}).values())

    # ---- memory
    def get(self, st, g, path=()):
        n = st.get(g)
        if n is None:
            n = self.UNDEF
        for s in path:
            n = self.proj(n, s)
        return n

    def put(self, st, g, path, val):
        st[g] = self.upd(st.get(g, self.UNDEF), tuple(path), val)

    def resolve(self, st, p):
        cur = ("cell", p["l"], ())
        pr = p.get("pr", ())
        i = 0
        while i < len(pr):
            x = pr[i]
            if x[0] == "deref":
                v = self.rd(st, cur)
                t = self.n[v]
                if t[0] == "ref":
                    cur = ("cell", t[1], t[2])
                else:
                    cur = ("opq", v, ())
            elif x[0] == "field":
                bt = x[4]
                if bt.startswith("std::boxed::Box<"):
                    i += 1
                    # skip the pointer wrappers inside a box
                    while i < len(pr) and pr[i][0] == "field" and re.match(r"std::(boxed::BoxRaw|ptr::(Unique|NonNull))<", pr[i][4]):
                        i += 1
                    continue
                if re.match(r"std::(boxed::BoxRaw|ptr::(Unique|NonNull))<", bt):
                    i += 1
                    continue
                cur = (cur[0], cur[1], cur[2] + (("f", x[1], x[2]),)) if cur[0] == "cell" else \
                    ("opq", cur[1], cur[2] + (("f", x[1], x[2]),))
            elif x[0] == "index":
                k = self.get(st, x[1])
                cur = (cur[0], cur[1], cur[2] + (("i", k),))
            elif x[0] == "cindex":
                if x[3]:
                    cur = (cur[0], cur[1], cur[2] + (("iend", x[1]),))
                else:
                    cur = (cur[0], cur[1], cur[2] + (("i", self.const("usize", x[1])),))
            elif x[0] == "sub":
                cur = (cur[0], cur[1], cur[2] + (("sub", x[1], x[2], x[3]),))
            elif x[0] == "down":
                cur = (cur[0], cur[1], cur[2] + (("v", x[1], x[2]),))
            i += 1
        return cur

    def rd(self, st, loc):
        if loc[0] == "cell":
            return self.get(st, loc[1], loc[2])
        n, path = loc[1], loc[2]
        t = self.n[n]
        if t[0] == "const" and isinstance(t[2], tuple):
            v = self.cderef(n)
        elif t[0] == "phi" and all(self.n[o][0] == "ref" for o in self.phi_ops(n) if o != n) and self.phi_ops(n):
            vals = sorted({self.get(st, self.n[o][1], self.n[o][2]) for o in self.phi_ops(n) if o != n})
            v = vals[0] if len(vals) == 1 else self.mk("load", n, tuple(vals))
        elif t[0] == "refproj":
            v = self.rd(st, ("opq", t[1], ()))
            for s in t[2]:
                v = self.proj(v, s)
        elif t[0] == "subref":
            v = self.mk("slice", self.content(st, t[1]), t[2])
        else:
            snaps = tuple(sorted({self.get(st, g, p) for g, p, m in self.aliases(n, st)}))
            v = self.mk("load", n, snaps)
        for s in path:
            v = self.proj(v, s)
        return v

    def cderef(self, n):
        """pointee of a constant reference"""
        t = self.n[n]
        m = re.match(r"&('\w+ )?(mut )?", t[1])
        if not m:
            return n
        ty, v = t[1][m.end():], t[2]
        if v[0] == "ptrs" and len(v[1]) == 1 and ty.startswith("&"):
            return self.mk("const", ty, v[1][0])
        if v[0] == "bytes" and ty in INT:
            lo, hi = INT[ty]
            size = 1 if ty == "bool" else 4 if ty == "char" else (hi - lo + 1).bit_length() // 8
            if len(v[1]) == size:
                return self.mk("const", ty, int.from_bytes(bytes(v[1]), "little", signed=lo < 0))
        return n

    def content(self, st, n):
        """what a reference value refers to (snapshot)"""
        t = self.n[n]
        if t[0] == "ref":
            return self.get(st, t[1], t[2])
        return self.rd(st, ("opq", n, ()))

    def aliases(self, n, st=None, seen=None):
        if seen is None:
            seen = set()
        if n in seen:
            return set()
        seen.add(n)
        t = self.n[n]
        k = t[0]
        if k == "ref":
            return {(t[1], t[2], t[3])}
        if k in ("call", "hofarg"):
            return set(self.alias_of.get(n, ()))
        r = set()
        if k == "agg":
            for c in t[2]:
                r |= self.aliases(c, st, seen)
        elif k == "phi":
            for c in self.phi_ops(n):
                r |= self.aliases(c, st, seen)
        elif k in ("proj", "refproj", "subref", "cast"):
            r |= self.aliases(t[1] if k != "cast" else t[3], st, seen)
        elif k == "load":
            for c in t[2]:
                r |= self.aliases(c, st, seen)
        elif k in ("upd", "store", "wstore"):
            r |= self.aliases(t[1], st, seen) | self.aliases(t[3], st, seen)
        elif k == "eff":
            r |= self.aliases(t[3], st, seen)
            ct = self.n[t[1]]
            if ct[0] == "call":
                r |= self.aliases(t[1], st, seen)
        elif k in ("repeat", "slice"):
            r |= self.aliases(t[1], st, seen)
        return r

    def wr(self, st, loc, val):
        if loc[0] == "cell":
            self.put(st, loc[1], loc[2], val)
            return
        n, path = loc[1], loc[2]
        t = self.n[n]
        if t[0] == "refproj":
            self.wr(st, ("opq", t[1], tuple(t[2]) + tuple(path)), val)
            return
        for g, p, m in sorted(self.aliases(n, st), key=repr):
            prev = self.get(st, g, p)
            self.put(st, g, p, self.mk("wstore", prev, n, val))

    # ---- operands and rvalues
    def opn(self, st, o):
        if o["k"] in ("copy", "move"):
            return self.rd(st, self.resolve(st, o["p"]))
        if "level" in o:
            return self.mk("level")
        if "fn" in o:
            return self.mk("fn", o["fn"], tuple(o.get("ga", ())))
        if "v" in o:
            ty = o["ty"]
            if ty == "std::cmp::Ordering":
                vi = (o["v"] + 1) if -1 <= o["v"] <= 1 else ((o["v"] + 1) % 256)
                return self.agg("adt", ty, vi, ("Less", "Equal", "Greater")[vi] if 0 <= vi < 3 else "?", (), [])
            if ty not in INT and ty not in ("f64", "f32"):
                # fieldless enum constant
                return self.mk("const", ty, o["v"])
            return self.mk("const", ty, o["v"])
        if "mem" in o:
            return self.mk("const", o["ty"], self.mem(o["mem"]))
        if "rt" in o:
            return self.mk("const", "bool", 1 if o["rt"] == "Overflow" else 0)
        return self.mk("const", o["ty"], ("s", o.get("s", "")))

    def mem(self, m):
        if m is None:
            return ("null",)
        if "bytes" in m:
            return ("bytes", tuple(m["bytes"]))
        if "ptrs" in m:
            return ("ptrs", tuple(self.mem(x) for x in m["ptrs"]))
        if "static" in m:
            if "init" in m and not m.get("mut"):
                return self.mem(m["init"])
            return ("static", m["static"])
        if "fnptr" in m:
            return ("fnptr", m["fnptr"])
        return ("s", str(m))

    def oty(self, o):
        return o["p"]["ty"] if o["k"] in ("copy", "move") else o.get("ty", "")

    def binop(self, op, ty, a, b):
        if op in ("Gt", "Ge"):
            return self.binop("Lt" if op == "Gt" else "Le", ty, b, a)
        x, y = self.cval(a), self.cval(b)
        if op in ("Lt", "Le", "Eq", "Ne"):
            if x is not None and y is not None:
                r = {"Lt": x < y, "Le": x <= y, "Eq": x == y, "Ne": x != y}[op]
                return self.const("bool", int(r))
            ia, ib = self.range0(a, ty), self.range0(b, ty)
            if ia and ib:
                if op == "Lt":
                    if ia[1] < ib[0]:
                        return self.const("bool", 1)
                    if ia[0] >= ib[1]:
                        return self.const("bool", 0)
                if op == "Le":
                    if ia[1] <= ib[0]:
                        return self.const("bool", 1)
                    if ia[0] > ib[1]:
                        return self.const("bool", 0)
                if op in ("Eq", "Ne") and (ia[1] < ib[0] or ib[1] < ia[0]):
                    return self.const("bool", int(op == "Ne"))
            if a == b and ty not in ("f64", "f32") and op in ("Eq", "Le", "Lt", "Ne"):
                return self.const("bool", int(op in ("Eq", "Le")))
            if op in ("Eq", "Ne") and x is not None:
                a, b, x, y = b, a, y, x
            return self.mk("op", op, ty, a, b)
        if x is not None and y is not None:
            wid = {7: 7, 8: 7, 15: 15, 16: 15, 31: 31, 32: 31, 63: 63, 64: 63}.get(INT[ty][1].bit_length(), 127) if ty in INT else 127
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y,
                     "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                     "Shl": lambda: x << (y & wid), "Shr": lambda: x >> (y & wid),
                     "Div": lambda: int(x / y) if y else None, "Rem": lambda: x % y if y > 0 and x >= 0 else None}.get(op, lambda: None)()
            except Exception:
                r = None
            if r is not None and ty in INT:
                return self.const(ty, r)
        if op == "BitAnd" and (x == 0 or y == 0):
            return self.const(ty, 0)
        if ty == "bool" and op == "BitOr" and 1 in (x, y):
            return self.const(ty, 1)
        if ty == "bool" and op == "BitAnd" and 1 in (x, y):
            return b if x == 1 else a
        if op in ("Add", "Sub", "BitOr", "Shl", "Shr", "BitXor") and y == 0:
            return a
        if op in ("Add", "BitOr") and x == 0:
            return b
        return self.mk("op", op, ty, a, b)

    def range0(self, n, ty):
        """cheap interval of a node"""
        t = self.n[n]
        if t[0] == "const" and isinstance(t[2], int):
            return (t[2], t[2])
        if t[0] == "sym" and isinstance(t[2], tuple):
            return t[2]
        if t[0] == "cast":
            r = self.range0(t[3], t[1])
            if r and t[2] in INT and INT[t[2]][0] <= r[0] and r[1] <= INT[t[2]][1]:
                return r
            return INT.get(t[2]) if t[2] in INT else None
        if t[0] == "hofarg" and t[4] == 0 and t[5] and ty in INT:
            # the items of a range with constant ends
            x = self.n[t[5][0]]
            while x[0] in ("at", "with"):
                x = self.n[x[1]]
            if x[0] == "agg" and x[1][3] == "Range" and len(x[2]) == 2:
                lo, hi = self.cval(x[2][0]), self.cval(x[2][1])
                if isinstance(lo, int) and isinstance(hi, int) and lo < hi:
                    return (lo, hi - 1)
            if x[0] == "call" and x[2].endswith("RangeInclusive::new") and len(x[3]) == 2:
                lo, hi = self.cval(x[3][0]), self.cval(x[3][1])
                if isinstance(lo, int) and isinstance(hi, int) and lo <= hi:
                    return (lo, hi)
        return INT.get(ty) if ty in INT else None

    def rval(self, st, r, blk, s):
        k = r["k"]
        if k == "use":
            return self.opn(st, r["o"][0])
        if k in ("ref", "rawptr"):
            loc = self.resolve(st, r["p"])
            mut = bool(r.get("mut")) or "Mut" in r.get("kind", "")
            if loc[0] == "cell":
                return self.mk("ref", loc[1], loc[2], mut)
            if not loc[2]:
                return loc[1]
            return self.mk("refproj", loc[1], loc[2])
        if k == "cast":
            o = r["o"][0]
            if r["ck"] == "BoxDerefTransmute":
                loc = self.resolve(st, o["p"])
                return self.mk("ref", loc[1], loc[2], True) if loc[0] == "cell" else self.mk("refproj", loc[1], loc[2]) if loc[2] else loc[1]
            a = self.opn(st, o)
            if r["ck"].startswith("PointerCoercion") or "Transmute" in r["ck"] or "PtrToPtr" in r["ck"]:
                return a
            f, t = self.oty(o), r["ty"]
            if f == t:
                return a
            c = self.cval(a)
            if c is not None and t in INT and f in INT:
                return self.const(t, c)
            n = self.mk("cast", f, t, a)
            self.tr(blk, ("cast", n, s))
            return n
        if k == "bin":
            a, b = self.opn(st, r["o"][0]), self.opn(st, r["o"][1])
            ty = self.oty(r["o"][0])
            op = r["op"]
            if op.endswith("WithOverflow"):
                op = op[:-len("WithOverflow")]
                v = self.binop(op, ty, a, b)
                self.tr(blk, ("bin", v, s, op, ty, a, b))
                return self.agg("tuple", "", 0, "", (), [v, self.mk("ovf", op, ty, a, b)])
            if op.endswith("Unchecked"):
                op = op[:-len("Unchecked")]
            v = self.binop(op, ty, a, b)
            self.tr(blk, ("bin", v, s, op, ty, a, b))
            return v
        if k == "un":
            a = self.opn(st, r["o"][0])
            if r["op"] == "PtrMetadata":
                return self.lenof(st, a)
            if r["op"] == "Not":
                c = self.cval(a)
                ty = self.oty(r["o"][0])
                if ty == "bool":
                    if c is not None:
                        return self.const("bool", 1 - c)
                    t = self.n[a]
                    if t[0] == "op" and t[1] in ("Lt", "Le", "Eq", "Ne"):
                        if t[1] == "Eq":
                            return self.mk("op", "Ne", t[2], t[3], t[4])
                        if t[1] == "Ne":
                            return self.mk("op", "Eq", t[2], t[3], t[4])
                        if t[2] not in ("f64", "f32"):
                            return self.mk("op", "Le" if t[1] == "Lt" else "Lt", t[2], t[4], t[3])
                    if t[0] == "not":
                        return t[1]
                return self.mk("not", a) if ty == "bool" else self.mk("op", "BitNot", ty, a)
            return self.mk("op", r["op"], self.oty(r["o"][0]), a)
        if k == "discr":
            v, ty = self.rd(st, self.resolve(st, r["p"])), r["p"].get("ty", "")
            d = self.discr(v, ty)
            if re.match(r"(std|core)::(option::Option|result::Result|ops::ControlFlow)<", ty):
                self.bin2.add(v)
                if self.n[d][0] == "discr":
                    self.bin2.add(self.n[d][1])
            return d
        if k == "agg":
            ch = [self.opn(st, o) for o in r["o"]]
            if r["ak"] == "rawptr" and ch:
                return ch[0]
            return self.agg(r["ak"], r.get("adt", r.get("fn", "")), r.get("vi", 0), r.get("vn", ""), tuple(r.get("fs", ())), ch)
        if k == "repeat":
            return self.mk("repeat", self.opn(st, r["o"][0]), r.get("n"))
        if k == "hofarg":
            args = []
            al = set()
            for o in r["o"]:
                v = self.opn(st, o)
                args.append(self.snap(st, v))
                al |= self.deepalias(st, v)
            n = self.mk("hofarg", blk.id, short(r["callee"]), r["i"], r["j"], tuple(args))
            if mayref(s["p"]["ty"]):
                self.alias_of[n] = frozenset(al)
            return n
        return self.mk("other", k, blk.id)

    def lenof(self, st, n):
        c = self.content(st, n)
        return self.mklen(c)

    def mklen(self, c):
        t = self.n[c]
        if t[0] == "store":
            return self.mklen(t[1])
        if t[0] == "agg" and t[1][0] == "array":
            return self.const("usize", len(t[2]))
        b = self.cbytes(c)
        if b is not None:
            return self.const("usize", len(b))
        return self.mk("len", c)

    def discr(self, n, ty=""):
        t = self.n[n]
        if t[0] == "agg":
            if t[1][1] == "std::cmp::Ordering":
                return self.const("u8", (t[1][2] - 1) % 256)
            return self.const("isize", t[1][2])
        if t[0] == "const" and isinstance(t[2], int):
            return self.const("isize", t[2])
        if t[0] == "phi":
            c = set()
            for a in self.phi_ops(n):
                if a == n:
                    continue
                at = self.n[a]
                c.add(self.discr(a) if at[0] == "agg" else -1)
            if len(c) == 1 and -1 not in c:
                return c.pop()
        if t[0] == "branch":
            d = self.discr(t[1])
            if t[2] == "Option":
                v = self.cval(d)
                if v is not None:
                    return self.const("isize", 1 - v)
                return self.mk("flip", d)
            return d
        return self.mk("discr", n)

    def snap(self, st, n, depth=0):
        t = self.n[n]
        if depth > 4:
            return n
        if t[0] == "ref":
            return self.mk("at", self.snap(st, self.get(st, t[1], t[2]), depth + 1))
        if t[0] == "const" and t[1].startswith("&") and isinstance(t[2], tuple):
            d = self.cderef(n)
            return self.mk("at", self.snap(st, d, depth + 1)) if d != n else n
        if t[0] == "subref":
            return self.mk("at", self.rd(st, ("opq", n, ())))
        if t[0] == "refproj":
            return self.mk("at", self.rd(st, ("opq", n, ())))
        if t[0] == "agg" and any(self.n[c][0] in ("ref", "agg", "refproj", "subref", "call", "phi") for c in t[2]):
            return self.mk("agg", t[1], tuple(self.snap(st, c, depth + 1) for c in t[2]))
        if t[0] in ("call", "hofarg", "phi", "proj", "load", "eff"):
            al = self.aliases(n, st)
            if al:
                return self.mk("with", n, tuple(sorted({self.get(st, g, p) for g, p, m in al})))
        return n

    def deepalias(self, st, n):
        out = set()
        for g, p, m in self.aliases(n, st):
            c = self.get(st, g, p)
            inner = self.aliases(c, st)
            if inner:
                out |= inner
            else:
                out.add((g, p, m))
        return out

    def tr(self, blk, ev):
        self.trace[blk.id].append(ev)

    # ---- calls
    def call(self, st, blk):
        t = blk.t
        fun = t["fun"]
        args = [self.opn(st, a) for a in t["a"]]
        atys = [self.oty(a) for a in t["a"]]
        name = fun.get("fn")
        sh = short(name) if name else "(indirect)"
        last = sh.split("::")[-1]
        slf = fun.get("self", "")
        snaps = tuple(self.snap(st, a) for a in args)
        hofs = tuple(self.snap(st, self.opn(st, o)) for _, o in t.get("hof", ()))
        ev = {"name": sh, "last": last, "fun": fun, "args": args, "snaps": snaps, "atys": atys, "block": blk.id, "loc": t,
              "self": slf, "dty": t["d"].get("ty", ""), "hof": hofs}
        res = self.model(st, blk, fun, sh, last, slf, args, atys, t)
        if res is None:
            extra = ()
            if not name:
                extra = (self.opn(st, fun),) if fun.get("k") in ("copy", "move") else ()
            cn = self.mk("call", blk.id, sh, snaps + hofs + extra)
            ev["node"] = cn
            dty = t["d"].get("ty", "")
            if mayref(dty):
                al = set()
                for a in args:
                    al |= self.deepalias(st, a)
                self.alias_of[cn] = frozenset(al)
            # effects through mutable references
            if last not in NOEFF:
                for i, (a, ty) in enumerate(zip(args, atys)):
                    self.effect(st, cn, i, a, ty)
            res = cn
        else:
            ev["node"] = res
            ev["modeled"] = True
        ev["dest"] = res
        self.wr(st, self.resolve(st, t["d"]), res)
        self.events[blk.id] = ev

    def effect(self, st, cn, i, a, ty, depth=0):
        t = self.n[a]
        if depth > 3:
            return
        if t[0] == "ref" and t[3]:
            c = self.get(st, t[1], t[2])
            ct = self.n[c]
            if ct[0] == "ref":
                if ct[3]:
                    self.effect(st, cn, i, c, "", depth + 1)
                else:
                    self.put(st, t[1], t[2], self.mk("eff", cn, i, c))
                return
            if ct[0] in ("call", "agg", "phi", "proj") and depth < 2 and "Iter" not in ty:
                for g, p, m in sorted(self.aliases(c, st), key=repr):
                    if m and (g, p) != (t[1], t[2]):
                        self.put(st, g, p, self.mk("eff", cn, i, self.get(st, g, p)))
            self.put(st, t[1], t[2], self.mk("eff", cn, i, self.get(st, t[1], t[2])))
        elif t[0] != "ref" and ty.startswith("&mut"):
            for g, p, m in sorted(self.aliases(a, st), key=repr):
                self.put(st, g, p, self.mk("eff", cn, i, self.get(st, g, p)))

    def optcmp(self, blk, t, op, ty, a, b):
        """comparison of an option with Some(value) or None, as the two comparisons it stands for"""
        m = re.match(r"(std|core)::option::Option<(\w+)>$", ty)
        if not m or m.group(2) not in INT and m.group(2) not in ("bool", "char"):
            return None
        if self.n[a][0] == "agg":
            a, b = b, a
        bt = self.n[b]
        if bt[0] != "agg":
            return None
        d = self.binop(op, "isize", self.discr(a), self.const("isize", bt[1][2]))
        if bt[1][2] == 0:
            return d
        x = self.payload(a, 1, "Some")
        e = self.binop(op, m.group(2), x, bt[2][0])
        self.tr(blk, ("bin", e, t, op, m.group(2), x, bt[2][0]))
        return self.binop("BitAnd" if op == "Eq" else "BitOr", "bool", d, e)

    def payload(self, x, vi, vn):
        return self.proj(self.proj(x, ("v", vi, vn)), ("f", 0, "0"))

    def model(self, st, blk, fun, sh, last, slf, args, atys, t):
        name = fun.get("fn")
        if name is None:
            return None
        if fun.get("ctor"):
            return None
        if last == "get_one" and "ArgMatches" in sh and self.seeds:
            b = self.cbytes(args[1]) or self.cbytes(self.content(st, args[1]))
            k = b.decode("utf8", "replace") if b is not None else None
            if k in self.seeds:
                v = self.seed(k)
                if self.n[v][0] == "agg":
                    return v
                g = self.seedcell.setdefault(k, self.flat.tmp(fun.get("ga", ["?"])[0], self.flat.root))
                st[g] = v
                return self.agg("adt", "std::option::Option", 1, "Some", ("0",), [self.mk("ref", g, (), False)])
        if sh.startswith("std::option::Option::") or sh.startswith("std::result::Result::"):
            opt = sh.startswith("std::option")
            if last in ("unwrap", "expect", "unwrap_unchecked", "unwrap_or_default") and last != "unwrap_or_default":
                a = args[0]
                return self.payload(a, 1, "Some") if opt else self.payload(a, 0, "Ok")
            if opt and last in ("copied", "cloned", "as_deref", "as_ref", "as_mut") and self.n[args[0]][0] == "agg":
                at = self.n[args[0]]
                if at[1][2] == 0:
                    return args[0]
                if last in ("copied", "cloned"):
                    return self.mk("agg", at[1], (self.content(st, at[2][0]),))
            if last in ("unwrap_or", "unwrap_or_else") and self.n[args[0]][0] == "agg":
                at = self.n[args[0]]
                if at[1][2] == (1 if opt else 0):
                    return at[2][0]
                if last == "unwrap_or":
                    return args[1]
            if last in ("unwrap_err", "expect_err"):
                return self.payload(args[0], 1, "Err")
            if last in ("is_some", "is_none", "is_ok", "is_err"):
                d = self.discr(self.content(st, args[0]))
                want = {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1}[last]
                return self.binop("Eq", "isize", d, self.const("isize", want))
            return None
        if last in ("deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut") and fun.get("trait", "").startswith(("std::ops::Deref", "std::convert::As", "std::borrow::")):
            if RC.search(slf):
                return None
            return args[0]
        if sh in ("std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice", "std::string::String::as_str", "core::str::as_bytes",
                  "std::string::String::as_bytes", "core::slice::as_slice", "std::boxed::Box::as_ref", "core::array::as_slice"):
            return args[0]
        if sh in ("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::slice::to_vec", "core::slice::to_vec", "alloc::slice::to_vec"):
            if RC.search(slf):
                return None
            return self.content(st, args[0])
        if last == "to_vec" and "slice" in sh:
            return self.content(st, args[0])
        if sh in ("std::slice::into_vec", "alloc::slice::into_vec", "core::slice::into_vec", "std::vec::Vec::into_boxed_slice"):
            return args[0]
        if sh in ("std::boxed::Box::new", "std::convert::identity", "std::hint::black_box"):
            return args[0]
        if sh == "std::iter::Iterator::by_ref" or sh == "std::io::Read::by_ref" or sh == "std::io::Write::by_ref":
            return args[0]
        if last == "into_iter" and fun.get("trait") == "std::iter::IntoIterator":
            if "Range" in slf and "std::ops" in slf or "<I as" in fun.get("res", ""):
                return args[0]
            return None
        if last == "index" and fun.get("trait") == "std::ops::Index" or last == "index_mut" and fun.get("trait") == "std::ops::IndexMut":
            ga = fun.get("ga", [])
            idxty = ga[1] if len(ga) > 1 else ""
            if idxty == "usize" or (len(atys) > 1 and atys[1] == "usize"):
                b = self.n[args[0]]
                if b[0] == "ref":
                    return self.mk("ref", b[1], b[2] + (("i", args[1]),), last == "index_mut")
                if b[0] == "refproj":
                    return self.mk("refproj", b[1], b[2] + (("i", args[1]),))
                return self.mk("refproj", args[0], (("i", args[1]),))
            if "Range" in idxty:
                return self.mk("subref", args[0], args[1])
            return None
        if last == "len" and len(args) == 1 and not fun.get("res", "").startswith("<") and atys[0].startswith("&"):
            return self.lenof(st, args[0])
        if last == "is_empty" and len(args) == 1 and atys[0].startswith("&") and ("slice" in sh or "Vec" in sh or "str" in sh):
            return self.binop("Eq", "usize", self.lenof(st, args[0]), self.const("usize", 0))
        if fun.get("trait") in ("std::cmp::PartialEq", "std::cmp::PartialOrd") and last in CMP and len(args) == 2:
            a, b = args
            ty = atys[0]
            while True:
                m = re.match(r"&('\w+ )?(mut )?", ty)
                if not m:
                    break
                a, b, ty = self.content(st, a), self.content(st, b), ty[m.end():]
            if last in ("eq", "ne"):
                v = self.optcmp(blk, t, CMP[last], ty, a, b)
                if v is not None:
                    return v
            v = self.binop(CMP[last], ty, a, b)
            self.tr(blk, ("bin", v, t, CMP[last], ty, a, b))
            return v
        if last == "contains" and len(args) == 2 and re.match(r"(std|core)::ops::(range::)?(Range|RangeInclusive|RangeFrom|RangeTo|RangeToInclusive)::contains$", sh):
            r = self.bounds(st, args[0], sh.split("::")[-2])
            if r is not None:
                x, ty = self.content(st, args[1]), re.sub(r"^&('\w+ )?(mut )?", "", atys[1])
                while ty.startswith("&"):
                    x, ty = self.content(st, x), re.sub(r"^&('\w+ )?(mut )?", "", ty)
                lo, hi, incl = r
                cs = []
                if lo is not None:
                    cs.append(("Le", lo, x))
                if hi is not None:
                    cs.append(("Le" if incl else "Lt", x, hi))
                vs = []
                for o, p, q in cs:
                    v = self.binop(o, ty, p, q)
                    self.tr(blk, ("bin", v, t, o, ty, p, q))
                    vs.append(v)
                return vs[0] if len(vs) == 1 else self.binop("BitAnd", "bool", vs[0], vs[1])
        if sh in ("std::cmp::Ord::min", "std::cmp::Ord::max", "std::cmp::min", "std::cmp::max"):
            return self.mk("op", last, atys[0], *sorted(args)) if len(args) == 2 else None
        if sh == "std::ops::Try::branch":
            a = args[0]
            opt = "option::Option" in slf
            d = self.discr(a)
            c = self.cval(d)
            if opt:
                cont = self.agg("adt", "std::ops::ControlFlow", 0, "Continue", ("0",), [self.payload(a, 1, "Some")])
                brk = self.agg("adt", "std::ops::ControlFlow", 1, "Break", ("0",), [self.agg("adt", "std::option::Option", 0, "None", (), [])])
                if c is not None:
                    return cont if c == 1 else brk
            else:
                cont = self.agg("adt", "std::ops::ControlFlow", 0, "Continue", ("0",), [self.payload(a, 0, "Ok")])
                brk = self.agg("adt", "std::ops::ControlFlow", 1, "Break", ("0",),
                               [self.agg("adt", "std::result::Result", 1, "Err", ("0",), [self.payload(a, 1, "Err")])])
                if c is not None:
                    return cont if c == 0 else brk
            return self.mk("branch", a, "Option" if opt else "Result", cont, brk)
        if sh == "std::ops::FromResidual::from_residual":
            return args[0]
        if sh == "std::mem::replace" and self.n[args[0]][0] == "ref":
            r = self.n[args[0]]
            old = self.get(st, r[1], r[2])
            self.put(st, r[1], r[2], args[1])
            return old
        if sh == "std::mem::swap" and self.n[args[0]][0] == "ref" and self.n[args[1]][0] == "ref":
            a, b = self.n[args[0]], self.n[args[1]]
            va, vb = self.get(st, a[1], a[2]), self.get(st, b[1], b[2])
            self.put(st, a[1], a[2], vb)
            self.put(st, b[1], b[2], va)
            return self.mk("const", "()", ("s", "()"))
        if sh in ("std::convert::From::from", "std::convert::Into::into") and len(args) == 1:
            ga = fun.get("ga", [])
            if len(ga) == 2:
                f, to = (ga[1], ga[0]) if last == "from" else (ga[0], ga[1])
                if f == to:
                    return args[0]
                if f in INT and to in INT:
                    k = self.cval(args[0])
                    return self.mk("cast", f, to, args[0]) if k is None else self.const(to, k)
        return None

    def bounds(self, st, n, kind):
        """(first, last, inclusive) of a borrowed range value"""
        t = self.n[n]
        if t[0] == "const" and isinstance(t[2], tuple) and t[2][0] == "bytes":
            m = re.match(r"&(?:'\w+ )?(?:mut )?[\w:]+<(\w+)>$", t[1])
            ty = m.group(1) if m else None
            if ty not in INT or ty in ("bool", "char"):
                return None
            size = (INT[ty][1] - INT[ty][0] + 1).bit_length() // 8
            bs, vs = bytes(t[2][1]), []
            for i in range(0, len(bs) // size * size, size):
                vs.append(self.const(ty, int.from_bytes(bs[i:i + size], "little", signed=INT[ty][0] < 0)))
            if kind == "Range" and len(vs) == 2 or kind == "RangeInclusive" and len(vs) >= 2:
                return vs[0], vs[1], kind == "RangeInclusive"
            if kind == "RangeFrom" and len(vs) == 1:
                return vs[0], None, False
            if kind in ("RangeTo", "RangeToInclusive") and len(vs) == 1:
                return None, vs[0], kind == "RangeToInclusive"
            return None
        c = self.content(st, n)
        t = self.n[c]
        if t[0] == "call" and kind == "RangeInclusive" and t[2].endswith("RangeInclusive::new") and len(t[3]) == 2:
            return t[3][0], t[3][1], True
        if t[0] == "agg":
            if kind == "Range" and len(t[2]) == 2:
                return t[2][0], t[2][1], False
            if kind == "RangeFrom" and len(t[2]) == 1:
                return t[2][0], None, False
            if kind in ("RangeTo", "RangeToInclusive") and len(t[2]) == 1:
                return None, t[2][0], kind == "RangeToInclusive"
        return None

    def fnvals(self, v, seen):
        """functions a pointer value can be, None if unknown"""
        if v in seen:
            return set()
        seen.add(v)
        t = self.n[v]
        if t[0] == "fn":
            return {t[1]}
        if t[0] == "phi":
            out = set()
            for o in self.phi_ops(v):
                r = self.fnvals(o, seen)
                if r is None:
                    return None
                out |= r
            return out
        return None

    def objvals(self, st, v, seen):
        """closures and structures a trait object can be, None if unknown"""
        if v in seen:
            return set()
        seen.add(v)
        t = self.n[v]
        if t[0] == "agg" and t[1][0] == "closure":
            return {t[1][1]}
        if t[0] == "agg" and t[1][0] == "adt":
            return {self.flat.w.canon(t[1][1])}
        if t[0] == "ref":
            return self.objvals(st, self.content(st, v), seen)
        if t[0] == "with":
            return self.objvals(st, t[1], seen)
        if t[0] == "phi":
            out = set()
            for o in self.phi_ops(v):
                r = self.objvals(st, o, seen)
                if r is None:
                    return None
                out |= r
            return out
        return None

    # ---- driver
    def step(self, st, blk):
        self.trace[blk.id] = []
        self.events.pop(blk.id, None)
        for s in blk.st:
            k = s["k"]
            if k == "=":
                v = self.rval(st, s["r"], blk, s)
                loc = self.resolve(st, s["p"])
                if loc[0] == "opq" or (loc[0] == "cell" and any(x[0] == "i" for x in loc[2])):
                    self.tr(blk, ("store", loc, v, s))
                self.tr(blk, ("set", loc, v, s))
                self.wr(st, loc, v)
            elif k == "dead":
                st.pop(s["l"], None)
            elif k == "setd":
                loc = self.resolve(st, s["p"])
                self.wr(st, loc, self.mk("setd", self.rd(st, loc), s["v"]))
        t = blk.t
        if t["k"] == "call":
            self.call(st, blk)
            return [t["t"].id] if t["t"] is not None else []
        if t["k"] == "switch":
            v = self.opn(st, t["o"])
            self.cond[blk.id] = v
            tv = self.n[v]
            c = self.cval(v)
            if c is not None:
                ty = tv[1]
                for val, x in t["ts"]:
                    if val == c or (c < 0 and ty in INT and val == c % (INT[ty][1] - INT[ty][0] + 1)):
                        return [x.id]
                return [t["ow"].id]
            if tv[0] == "sym" and isinstance(tv[2], tuple):
                # known to lie in a range
                lo, hi = tv[2]
                live = [x.id for val, x in t["ts"] if lo <= val <= hi]
                if len({val for val, _ in t["ts"] if lo <= val <= hi}) < hi - lo + 1:
                    live.append(t["ow"].id)
                return list(dict.fromkeys(live))
            return list(blk.succ)
        if t["k"] == "assert":
            v = self.opn(st, t["c"])
            self.cond[blk.id] = v
            return [t["t"].id]
        if t["k"] == "nondet" and "fnptr" in t:
            v = self.opn(st, t["fnptr"])
            vs = self.fnvals(v, set())
            if vs is not None:
                return [e.id for c, e in zip(t["cands"], t["ts"]) if c in vs]
        if t["k"] == "nondet" and "dynobj" in t:
            vs = self.objvals(st, self.opn(st, t["dynobj"]), set())
            if vs is not None and any(c in vs for c in t["cands"]):
                return [e.id for c, e in zip(t["cands"], t["ts"]) if c in vs]
        if t["k"] == "nondet" and "recv" in t:
            v = self.opn(st, t["recv"])
            self.hofrecv[blk.id] = v
            c = self.cval(self.discr(v))
            if c is not None and all(w is not None for w in t["want"]):
                called = [e.id for w, e in zip(t["want"], t["ts"]) if w == c]
                return called or [t["ts"][-1].id]
        return list(blk.succ)

    def run(self):
        fl = self.flat
        order = self.rpo()
        pos = {b: i for i, b in enumerate(order)}
        self.heads = {b for b in order if any(pos.get(p, -1) >= pos[b] for p in fl.blocks[b].pred)}
        import heapq
        self.out = {}
        self.live = set()
        init = {}
        f = fl.w.fns[fl.root]
        for i, g in enumerate(fl.params):
            ty = fl.local_ty[g]
            nm = fl.local_name[g] or str(i)
            init[g] = self.param(init, nm, ty, 0)
        self.init = init
        heap = [pos[fl.entry.id]]
        inq = {fl.entry.id}
        self.instate = {}
        steps = 0
        while heap:
            b = order[heapq.heappop(heap)]
            inq.discard(b)
            blk = fl.blocks[b]
            steps += 1
            if steps > 400000:
                raise RuntimeError("value graph does not converge")
            st = self.merge(b, init if b == fl.entry.id else None)
            self.instate[b] = dict(st)
            self.visits[b] = self.visits.get(b, 0) + 1
            if self.visits[b] > 400:
                raise RuntimeError("value graph does not converge at %s" % blk.fn)
            succ = self.step(st, blk)
            for s in succ:
                e = (b, s)
                if e not in self.live or self.out.get(e) != st:
                    self.live.add(e)
                    self.out[e] = st
                    if s not in inq:
                        heapq.heappush(heap, pos[s])
                        inq.add(s)
            if not heap:
                # phi operands may have grown since a block was visited: sweep until nothing changes
                snap = (self.phis.copy(), len(self.live))
                snap = ({k: dict(v) for k, v in snap[0].items()}, snap[1])
                if getattr(self, "lastsnap", None) == snap:
                    break
                self.lastsnap = snap
                for x in {fl.entry.id} | {q for _, q in self.live}:
                    heapq.heappush(heap, pos[x])
                    inq.add(x)
        self.finish()

    def param(self, init, nm, ty, depth):
        if ty.startswith("&") and depth < 2:
            inner = re.sub(r"^&('\w+ )?(mut )?", "", ty)
            g = self.flat.tmp(inner, self.flat.root)
            init[g] = self.param(init, "*" + nm, inner, depth + 1)
            return self.mk("ref", g, (), "mut " in ty[:10])
        return self.mk("param", nm, ty)

    def merge(self, b, init):
        preds = [p for p in self.flat.blocks[b].pred if (p, b) in self.live]
        srcs = [(p, self.out[(p, b)]) for p in preds]
        if init is not None:
            srcs.append((-1, init))
        if not srcs:
            return {}
        if len(srcs) == 1:
            return dict(srcs[0][1])
        st = {}
        base = min((s for _, s in srcs), key=len)
        for g in base:
            vals = []
            ok = True
            for p, s in srcs:
                v = s.get(g)
                if v is None:
                    ok = False
                    break
                vals.append((p, v))
            if not ok:
                continue
            v0 = vals[0][1]
            key = (b, g)
            if key not in self.phis and all(v == v0 for _, v in vals):
                st[g] = v0
                continue
            ph = self.mk("phi", b, g)
            self.phis[key] = dict(vals)
            if self.visits.get(b, 0) < self.maxvisits:
                distinct = {v for _, v in vals if v != ph}
                if len(distinct) == 1:
                    st[g] = distinct.pop()
                    continue
            st[g] = ph
        return st

    def rpo(self):
        fl = self.flat
        seen, post = set(), []
        stack = [(fl.entry.id, iter(fl.entry.succ))]
        seen.add(fl.entry.id)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(fl.blocks[s].succ)))
                    break
            else:
                post.append(b)
                stack.pop()
        return post[::-1]

    # ---- after the fixpoint
    def finish(self):
        self.reached = {self.flat.entry.id} | {s for _, s in self.live}
        self.succ = {b: [] for b in self.reached}
        self.pred = {b: [] for b in self.reached}
        for p, s in self.live:
            if p in self.reached:
                self.succ[p].append(s)
                self.pred[s].append(p)
        for k in list(self.events):
            if k not in self.reached:
                del self.events[k]

    # ---- printing
    def show(self, n, d=6):
        t = self.n[n]
        k = t[0]
        if d <= 0:
            return "..."
        s = lambda x: self.show(x, d - 1)
        if k == "const":
            b = self.cbytes(n)
            if b is not None:
                return repr(b)
            return str(t[2]) if isinstance(t[2], int) else str(t[2])[:60]
        if k == "op":
            return "%s(%s)" % (t[1], ",".join(s(x) for x in t[3:]))
        if k == "call":
            return "%s@%d(%s)" % (t[2].split("::")[-1], t[1], ",".join(s(x) for x in t[3]))
        if k == "hofarg":
            return "elem@%d#%d(%s)" % (t[1], t[4], ",".join(s(x) for x in t[5]))
        if k == "eff":
            return "eff[%s #%d](%s)" % (s(t[1]), t[2], s(t[3]))
        if k == "phi":
            return "phi(b%d,%s)" % (t[1], self.flat.local_name[t[2]] or t[2])
        if k == "ref":
            return "&%s%s" % (self.flat.local_name[t[1]] or t[1], "".join("." + str(p[-1] if p[0] != "i" else "[%s]" % s(p[1])) for p in t[2]))
        if k == "proj":
            st = t[2]
            return "%s.%s" % (s(t[1]), st[2] if st[0] in "fv" else "[%s]" % s(st[1]) if st[0] == "i" else st)
        if k == "agg":
            return "%s{%s}" % (t[1][3] or t[1][0], ",".join(s(x) for x in t[2]))
        if k == "at":
            return "@" + s(t[1])
        if k == "cast":
            return "%s as %s" % (s(t[3]), t[2])
        if k == "with":
            return s(t[1]) + "~"
        if k in ("len", "discr", "not", "repeat", "flip"):
            return "%s(%s)" % (k, s(t[1]))
        if k == "load":
            return "load(%s)" % s(t[1])
        if k == "store":
            return "%s[%s:=%s]" % (s(t[1]), s(t[2]), s(t[3]))
        if k in ("wstore",):
            return "%s{*%s:=%s}" % (s(t[1]), s(t[2]), s(t[3]))
        return str(t)[:80]

    def where(self, b):
        t = self.flat.blocks[b].t
        return "%s:%s" % (t.get("f"), t.get("ln"))
