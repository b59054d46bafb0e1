"""Analyses on the value graph: terminals, dominators, dependences, format strings, path-sensitive exploration."""
import re
from ir import World, Flat
from vg import VG, short, INT

LOGMAC = {"info", "debug", "warn", "error", "trace", "log", "log_enabled"}
PANIC = re.compile(r"panic|assert_failed|unwrap_failed|expect_failed|handle_alloc_error|process::abort|"
                   r"slice_.*_fail|unreachable_display|bounds_check|begin_unwind|resume_unwind")


class Analysis:
    """value graph of one root with the derived relations"""

    def __init__(self, world, root, seeds=None, opaque=()):
        self.w = world
        self.root = root
        self.flat = Flat(world, root, opaque=opaque)
        self.g = VG(self.flat, seeds)
        self.n = self.g.n
        self.events = self.g.events
        self.reached = self.g.reached
        self.succ = self.g.succ
        self.pred = self.g.pred
        self.entry = self.flat.entry.id
        self.ret = self.flat.ret_block.id
        self._deps = {}
        self._defs = {}
        self._dom = None
        self._reach = {}
        self.classify()

    # ---- terminals
    def classify(self):
        self.term = {}
        for b in self.reached:
            if b == self.ret:
                self.term[b] = ("ret", None)
                continue
            if self.succ[b]:
                continue
            t = self.flat.blocks[b].t
            if t["k"] == "call":
                ev = self.events[b]
                if ev["name"].endswith("process::exit"):
                    self.term[b] = ("exit", ev["args"][0])
                elif PANIC.search(ev["name"]):
                    self.term[b] = ("panic", None)
                else:
                    self.term[b] = ("noreturn", ev["name"])
            elif t["k"] == "unreachable":
                self.term[b] = ("unreachable", None)
            else:
                self.term[b] = ("stop", t.get("why"))
        # blocks from which the program can end normally
        self.normal = set()
        todo = [b for b, (k, x) in self.term.items() if k == "ret" or (k == "exit" and self.g.cval(x) in (0, None))]
        self.normal_ends = set(todo)
        while todo:
            b = todo.pop()
            if b in self.normal:
                continue
            self.normal.add(b)
            todo += self.pred[b]

    def reach_from(self, b):
        """blocks reachable from the end of b (b itself only through a cycle)"""
        r = self._reach.get(b)
        if r is None:
            r, todo = set(), list(self.succ[b])
            while todo:
                x = todo.pop()
                if x not in r:
                    r.add(x)
                    todo += self.succ[x]
            self._reach[b] = r
        return r

    # ---- dominators
    def dom(self):
        if self._dom is None:
            self._dom = domtree(self.entry, self.succ, self.pred)
        return self._dom

    def dominates(self, a, b):
        idom = self.dom()
        while True:
            if a == b:
                return True
            if b == self.entry or b not in idom:
                return False
            b = idom[b]

    def edge_facts(self, p, s):
        """facts that hold when p is left to its successor s"""
        out = self.facts(p)
        t = self.flat.blocks[p].t
        if p in self.g.cond and t["k"] == "switch" and len(self.succ[p]) > 1:
            vals = [v for v, y in t["ts"] if y.id == s]
            if len(vals) == 1 and t["ow"].id != s:
                out.append((self.g.cond[p], vals[0]))
            elif not vals:
                others = [v for v, y in t["ts"]]
                out.append((self.g.cond[p], 1 if others == [0] and self.cond_bool(p) else ("not", tuple(others))))
            for cond, v in out[-1:]:
                self.unfold(cond, v, out, 0)
        return out

    def facts(self, b):
        """(condition node, value) pairs that hold at b: single edges of dominating branches"""
        out = []
        idom = self.dom()
        x = b
        while x != self.entry and x in idom:
            p = idom[x]
            t = self.flat.blocks[p].t
            if p in self.g.cond and t["k"] == "switch" and len(self.succ[p]) > 1:
                # which edges of p lead to x without passing p again
                es = [s for s in self.succ[p] if s == x or self.dominates(x, s) is False and self.reaches_without(s, b, p)]
                if len(es) == 1:
                    s = es[0]
                    vals = [v for v, y in t["ts"] if y.id == s]
                    if len(vals) == 1 and t["ow"].id != s:
                        out.append((self.g.cond[p], vals[0]))
                    elif not vals:
                        others = [v for v, y in t["ts"]]
                        if others == [0] and self.cond_bool(p):
                            out.append((self.g.cond[p], 1))
                        else:
                            out.append((self.g.cond[p], ("not", tuple(others))))
            elif p in self.g.cond and t["k"] == "assert":
                out.append((self.g.cond[p], 1 if t["e"] else 0))
            x = p
        for cond, v in list(out):
            self.unfold(cond, v, out, 0)
        return out

    def unfold(self, cond, v, out, d):
        """what a fact about a combination of conditions says about each of them"""
        t = self.n[cond]
        if d > 6 or v not in (0, 1):
            return
        subs = []
        if t[0] == "phi" and not any(self.dominates(t[1], p) for p in self.pred.get(t[1], ())):
            os = [o for o in self.g.phi_ops(cond) if self.g.cval(o) is None]
            ks = [self.g.cval(o) for o in self.g.phi_ops(cond) if self.g.cval(o) is not None]
            if len(os) == 1 and v not in ks:
                subs = [(os[0], v)]
        elif t[0] == "op" and t[1] == "BitOr" and v == 0 or t[0] == "op" and t[1] == "BitAnd" and v == 1:
            subs = [(t[3], v), (t[4], v)]
        elif t[0] == "not":
            subs = [(t[1], 1 - v)]
        for s in subs:
            if s not in out:
                out.append(s)
                self.unfold(s[0], s[1], out, d + 1)

    def cond_bool(self, b):
        o = self.flat.blocks[b].t["o"]
        ty = o["p"]["ty"] if o["k"] in ("copy", "move") else o.get("ty")
        return ty == "bool"

    def reaches_without(self, s, b, p):
        seen, todo = set(), [s]
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x in seen or x == p:
                continue
            seen.add(x)
            todo += self.succ[x]
        return False

    # ---- dependences
    def ops(self, n):
        """direct operands of a node"""
        t = self.n[n]
        k = t[0]
        if k == "phi":
            return self.g.phi_ops(n)
        if k == "agg":
            return list(t[2])
        if k == "op":
            return list(t[3:])
        if k == "cast":
            return [t[3]]
        if k == "call":
            return list(t[3])
        if k == "hofarg":
            return list(t[5])
        if k == "eff":
            return [t[1], t[3]]
        if k == "proj":
            return [t[1]] + ([t[2][1]] if t[2][0] == "i" else [])
        if k in ("upd",):
            return [t[1], t[3]]
        if k in ("store", "wstore"):
            return [t[1], t[2], t[3]]
        if k in ("with", "load"):
            return [t[1]] + list(t[2])
        if k in ("slice", "subref"):
            return [t[1], t[2]]
        if k in ("at", "len", "discr", "not", "flip", "repeat"):
            return [t[1]]
        if k == "branch":
            return [t[1], t[3], t[4]]
        if k == "refproj":
            return [t[1]] + [s[1] for s in t[2] if s[0] == "i"]
        if k == "ovf":
            return [t[3], t[4]]
        if k == "setd":
            return [t[1]]
        if k == "ref":
            return [s[1] for s in t[2] if s[0] == "i"]
        return []

    def deps(self, n):
        r = self._deps.get(n)
        if r is None:
            r, todo = set(), [n]
            while todo:
                x = todo.pop()
                if x in r:
                    continue
                r.add(x)
                todo += self.ops(x)
            self._deps[n] = r
        return r

    def ctldeps(self, n):
        """data dependences plus those of the branches that decide which operand a phi takes"""
        if not hasattr(self, "_cdeps"):
            self._cdeps, self._phic = {}, {}
        r = self._cdeps.get(n)
        if r is not None:
            return r
        r, todo = set(), [n]
        while todo:
            x = todo.pop()
            if x in r:
                continue
            r.add(x)
            todo += self.ops(x)
            t = self.n[x]
            if t[0] == "phi" and t[1] in self.reached:
                todo += self.phiconds(t[1])
        self._cdeps[n] = r
        return r

    def phiconds(self, b):
        """conditions of the branches between b's immediate dominator and b"""
        r = self._phic.get(b)
        if r is None:
            d = self.dom().get(b, b)
            seen, todo = set(), list(self.pred[b])
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x != d:
                    todo += self.pred[x]
            r = [self.g.cond[x] for x in seen if x in self.g.cond and len(self.succ[x]) > 1]
            self._phic[b] = r
        return r

    def depcalls(self, n):
        return [self.n[x] for x in self.deps(n) if self.n[x][0] == "call"]

    def defs(self, n):
        """blocks that (re)define n"""
        r = self._defs.get(n)
        if r is None:
            self._defs[n] = set()
            t = self.n[n]
            if t[0] == "phi":
                r = {t[1]}
            else:
                r = set()
                if t[0] in ("call", "hofarg"):
                    r.add(t[1])
                for x in self.ops(n):
                    r |= self.defs(x)
            self._defs[n] = r
        return r

    # ---- events
    def evs(self, *lasts, log=False):
        for b in self.g.rpo():
            e = self.events.get(b)
            if e is None or (not log and self.islog(e)):
                continue
            if not lasts or e["last"] in lasts:
                yield e

    def islog(self, e):
        return any(m.split("::")[-1] in LOGMAC for m in e["loc"].get("mac") or ())

    def where(self, b):
        """function and source position"""
        t = self.flat.blocks[b].t
        blk = self.flat.blocks[b]
        return "%s (%s:%s)" % (blk.fn, t.get("f"), t.get("ln"))

    def fn(self, b):
        return self.flat.blocks[b].fn

    def strip(self, n):
        """drops snapshot wrappers"""
        while self.n[n][0] in ("at", "with"):
            n = self.n[n][1]
        return n

    def uncast(self, n):
        while True:
            t = self.n[n]
            if t[0] in ("at", "with"):
                n = t[1]
            elif t[0] == "cast":
                n = t[3]
            else:
                return n

    def widened(self, n):
        """without casts that keep every value the program may meet (usize counts as u64)"""
        while True:
            t = self.n[n]
            if t[0] in ("at", "with"):
                n = t[1]
            elif t[0] == "cast" and not self.cuts(t):
                n = t[3]
            else:
                return n

    def cuts(self, t):
        """can the cast change the value?"""
        f, to = t[1], t[2]
        if f not in INT or to not in INT:
            return f in INT and to in ("f32", "f64") or f in ("f32", "f64")
        return not (INT[to][0] <= INT[f][0] and INT[f][1] <= INT[to][1])

    # ---- format strings
    def fmt(self, n, depth=0):
        """[("lit", bytes) | ("arg", node, kind)] of an Arguments value, None if not understood"""
        n = self.strip(n)
        t = self.n[n]
        if t[0] != "call":
            return None
        nm = t[2].split("::")
        if nm[-1] in ("from_str", "from_str_nonconst", "new_const"):
            b = self.text_const(t[3][0])
            return [("lit", b)] if b is not None else None
        if nm[-1] not in ("new", "new_v1", "new_v1_formatted") or "Arguments" not in nm[-2]:
            return None
        tpl = self.text_const(t[3][0])
        arr = self.n[self.strip(t[3][1])]
        if tpl is None or arr[0] != "agg":
            return None
        args = [self.fmtarg(a) for a in arr[2]]
        out, i, nxt = [], 0, 0
        while i < len(tpl):
            c = tpl[i]
            i += 1
            if c == 0:
                break
            if c < 0x80:
                out.append(("lit", tpl[i:i + c]))
                i += c
            elif c == 0x80:
                ln = tpl[i] | tpl[i + 1] << 8
                out.append(("lit", tpl[i + 2:i + 2 + ln]))
                i += 2 + ln
            else:
                plain = not c & 7
                opt = ""
                if c & 1:
                    fl = int.from_bytes(tpl[i:i + 4], "little")
                    opt += "#" if fl & 1 << 23 else ""
                    opt += "w" if fl & 1 << 27 else ""
                    i += 4
                if c & 2:
                    opt += "w"
                    i += 2
                if c & 4:
                    i += 2
                idx = nxt
                if c & 8:
                    idx = tpl[i] | tpl[i + 1] << 8
                    i += 2
                nxt = idx + 1
                if idx >= len(args) or args[idx] is None:
                    return None
                node, kind = args[idx]
                out.append(("arg", node, kind if plain else kind + "+spec" + opt))
        # expand strings that are themselves formatted
        res = []
        for p in out:
            if p[0] == "arg" and p[2] == "display" and depth < 4:
                sub = self.strparts(p[1], depth + 1)
                if sub is not None:
                    res += sub
                    continue
            res.append(p)
        return merge_lits(res)

    def fmtarg(self, a):
        a = self.strip(a)
        t = self.n[a]
        if t[0] == "call" and t[2].split("::")[-1].startswith("new_"):
            return (self.deref(t[3][0]), t[2].split("::")[-1][4:])
        return None

    def deref(self, n):
        """value of a (multiply) borrowed snapshot"""
        while self.n[n][0] in ("at", "with"):
            n = self.n[n][1]
        return n

    def text_const(self, n):
        n = self.strip(n)
        b = self.g.cbytes(n)
        if b is not None:
            return b
        return None

    def strparts(self, n, depth=0):
        """parts of a String / &str value"""
        n = self.deref(n)
        t = self.n[n]
        b = self.g.cbytes(n)
        if b is not None and t[0] == "const" and ("str" in t[1]):
            return [("lit", b)]
        if t[0] == "call":
            nm = t[2]
            last = nm.split("::")[-1]
            if last in ("format", "format_inner") and t[3]:
                return self.fmt(t[3][0], depth)
            if last == "must_use" and t[3]:
                return self.strparts(t[3][0], depth)
            if last in ("from", "to_string", "to_owned", "into", "as_str", "as_bytes", "into_bytes", "deref", "as_ref", "borrow", "clone") and len(t[3]) == 1:
                r = self.strparts(t[3][0], depth)
                if r is None and last == "to_string":
                    return [("arg", self.deref(t[3][0]), "display")]
                return r
            if last == "new" and "String" in nm:
                return []
            if last == "add" and len(t[3]) == 2:
                a, c = self.strparts(t[3][0], depth), self.strparts(t[3][1], depth)
                if a is not None:
                    return merge_lits(a + (c if c is not None else [("arg", self.deref(t[3][1]), "display")]))
        if t[0] == "eff":
            c = self.n[t[1]]
            last = c[2].split("::")[-1] if c[0] == "call" else ""
            prev = self.strparts(t[3], depth)
            if prev is None:
                return None
            if last in ("push_str", "write_str"):
                s = self.strparts(c[3][1], depth)
                return merge_lits(prev + (s if s is not None else [("arg", self.deref(c[3][1]), "display")]))
            if last == "write_fmt":
                s = self.fmt(c[3][1], depth)
                return merge_lits(prev + s) if s is not None else None
            if last in ("as_str", "as_bytes", "reserve"):
                return prev
            return None
        return None

    # ---- path-sensitive exploration
    def explorer(self, extra=()):
        return Explorer(self, extra)


def merge_lits(ps):
    out = []
    for p in ps:
        if p[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + p[1])
        elif p[0] == "lit" and not p[1]:
            continue
        else:
            out.append(p)
    return out


def domtree(entry, succ, pred):
    order, seen = [], {entry}
    st = [(entry, iter(succ[entry]))]
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in pred[b]:
                if p in idom and p in num:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                ch = True
    return idom


class Explorer:
    """Forward exploration of (block, facts) pairs. A fact is the value a branch condition (or the variant of a
    value) is known to have on the path; a phi is known by the operand of the edge taken. Infeasible branches are
    not followed. On top of it runs a finite automaton given by the caller."""

    def __init__(self, a, extra=(), limit=60000):
        self.a = a
        self.g = a.g
        self.limit = limit
        self.assume = None
        self.relevant(extra)

    def relevant(self, extra):
        a = self.a
        R = set()
        todo = list(extra)
        for b in a.reached:
            if b in self.g.cond and a.flat.blocks[b].t["k"] == "switch" and len(a.succ[b]) > 1:
                todo.append(self.g.cond[b])
        self.unwraps = {}
        for b, e in a.events.items():
            nm, last = e["name"], e["last"]
            if not e.get("modeled") or not e["args"] or b not in a.reached:
                continue
            good = None
            if "result::Result" in nm:
                good = {"unwrap": 0, "expect": 0, "unwrap_unchecked": 0, "unwrap_err": 1, "expect_err": 1}.get(last)
            elif "option::Option" in nm:
                good = {"unwrap": 1, "expect": 1, "unwrap_unchecked": 1}.get(last)
            if good is not None:
                self.unwraps[b] = (e["args"][0], good)
                todo.append(e["args"][0])
                todo.append(self.g.mk("discr", e["args"][0]))
        while todo:
            n = todo.pop()
            if n in R:
                continue
            R.add(n)
            t = a.n[n]
            k = t[0]
            if k in ("discr", "not", "flip", "at"):
                todo.append(t[1])
            elif k == "branch":
                todo += [t[1]]
            elif k == "op" and (t[1] in ("Eq", "Ne", "Lt", "Le") or t[1] in ("BitAnd", "BitOr", "BitXor") and t[2] == "bool"):
                todo += [x for x in t[3:]]
            elif k == "proj" and t[2][0] in "vf":
                todo.append(t[1])
            elif k == "phi":
                todo += self.g.phi_ops(n)
            elif k == "agg":
                todo += list(t[2])
            elif k == "upd":
                todo += [t[1], t[3]]
            elif k == "call" and self.comb(t):
                todo.append(t[3][0])
        self.R = R
        self.phis_at = {}
        for n in R:
            t = a.n[n]
            if t[0] == "phi" and t[1] in a.reached:
                self.phis_at.setdefault(t[1], []).append(n)
        self.defat = {}
        for n in R:
            for b in a.defs(n):
                self.defat.setdefault(b, set()).add(n)
        self.liveness(extra)

    def lookups(self, n):
        """nodes whose facts the evaluation of n may consult"""
        r = self._lk.get(n)
        if r is None:
            r, todo = set(), [n]
            while todo:
                x = todo.pop()
                if x in r:
                    continue
                r.add(x)
                t = self.g.n[x]
                if t[0] == "phi":
                    continue
                if t[0] == "op" and t[1] in ("Eq", "Ne"):
                    o = self.g.ids.get(("op", "Ne" if t[1] == "Eq" else "Eq") + t[2:])
                    if o is not None:
                        r.add(o)
                elif t[0] == "op" and t[1] in ("Lt", "Le"):
                    o = self.g.ids.get(("op", "Le" if t[1] == "Lt" else "Lt", t[2], t[4], t[3]))
                    if o is not None:
                        r.add(o)
                if t[0] in ("discr", "not", "flip", "branch"):
                    todo.append(t[1])
                elif t[0] == "op" and (t[1] in ("Eq", "Ne", "Lt", "Le") or t[1] in ("BitAnd", "BitOr", "BitXor") and t[2] == "bool"):
                    todo += t[3:]
                elif t[0] == "proj" and t[2][0] in "vf":
                    todo.append(t[1])
                elif t[0] == "agg":
                    todo += list(t[2])
                elif t[0] == "upd":
                    todo += [t[1], t[3]]
                elif t[0] == "call" and self.comb(t):
                    todo.append(t[3][0])
                elif t[0] == "at":
                    todo.append(t[1])
            self._lk[n] = r
        return r

    def liveness(self, extra):
        a = self.a
        self._lk = {}
        self.always = set()
        for n in extra:
            todo = [n]
            while todo:
                x = todo.pop()
                if x in self.always:
                    continue
                for y in self.lookups(x):
                    self.always.add(y)
                    if self.g.n[y][0] == "phi":
                        for o in self.g.phi_ops(y):
                            todo += [z for z in self.lookups(o) if z not in self.always]
        use = {}
        for b in a.reached:
            if b in self.g.cond and a.flat.blocks[b].t["k"] == "switch" and len(a.succ[b]) > 1:
                use[b] = self.lookups(self.g.cond[b]) & self.R
            if b in self.unwraps:
                use[b] = use.get(b, set()) | (self.lookups(self.unwraps[b][0]) & self.R)
        live = {b: set(use.get(b, ())) for b in a.reached}
        todo = list(a.reached)
        inq = set(todo)
        while todo:
            b = todo.pop()
            inq.discard(b)
            out = set(live[b])
            n0 = len(out)
            for s in a.succ[b]:
                ls = live[s]
                out |= ls - self.defat.get(s, set())
                for ph in self.phis_at.get(s, ()):
                    if ph in ls or ph in self.always:
                        op = self.g.phis.get((s, self.g.n[ph][2]), {}).get(b)
                        if op is not None:
                            out |= self.lookups(op) & self.R
            if len(out) != n0:
                live[b] = out
                for p in a.pred[b]:
                    if p not in inq:
                        inq.add(p)
                        todo.append(p)
        self.live = live

    POS = ("P",)    # a count that has been increased: not zero

    def ev(self, n, env, d=0):
        """abstract value: int | POS | ("V", variant, children) | None"""
        if n in env:
            return env[n]
        if d > 12:
            return None
        t = self.g.n[n]
        k = t[0]
        if k == "const":
            return t[2] if isinstance(t[2], int) else None
        if k == "agg":
            if t[1][0] == "adt" or t[1][0] == "tuple":
                return ("V", t[1][2], tuple(self.ev(c, env, d + 1) for c in t[2]) if d < 6 else ())
            return None
        if k == "discr":
            v = self.ev(t[1], env, d + 1)
            return v[1] if isinstance(v, tuple) and v[0] == "V" else None
        if k == "branch":
            v = self.ev(t[1], env, d + 1)
            if isinstance(v, tuple) and v[0] == "V":
                if t[2] == "Option":
                    return ("V", 1 - v[1], ())
                return v
            return None
        if k == "flip":
            v = self.ev(t[1], env, d + 1)
            return 1 - v if isinstance(v, int) else None
        if k == "not":
            v = self.ev(t[1], env, d + 1)
            return 1 - v if isinstance(v, int) else None
        if k == "proj":
            v = self.ev(t[1], env, d + 1)
            if isinstance(v, tuple) and v[0] == "V":
                if t[2][0] == "v":
                    return v if v[1] == t[2][1] else None
                if t[2][0] == "f" and t[2][1] < len(v[2]):
                    return v[2][t[2][1]]
            return None
        if k == "upd":
            if t[2][0] == "f":
                v = self.ev(t[1], env, d + 1)
                if isinstance(v, tuple) and v[0] == "V" and t[2][1] < len(v[2]):
                    c = list(v[2])
                    c[t[2][1]] = self.ev(t[3], env, d + 1)
                    return ("V", v[1], tuple(c))
            return None
        if k == "at":
            return self.ev(t[1], env, d + 1)
        if k == "setd":
            return ("V", t[2], ()) if isinstance(t[2], int) else None
        if k == "eff" and t[2] == 0:
            x = self.g.n[t[1]]
            if x[0] == "call" and "option::Option::" in x[2] and x[2].split("::")[-1] in self.FILLS:
                return ("V", self.FILLS[x[2].split("::")[-1]], ())
            return None
        if k == "call":
            m = self.comb(t)
            if m:
                v = self.ev(t[3][0], env, d + 1)
                if isinstance(v, tuple) and v[0] == "V" and v[1] in m:
                    return ("V", m[v[1]], ())
            return None
        if k == "op" and t[1] == "Add" and t[2] in ("usize", "u64", "u32", "u128") and any((self.g.cval(o) or 0) > 0 for o in t[3:]):
            return self.POS
        if k == "op" and t[1] in ("BitAnd", "BitOr", "BitXor") and t[2] == "bool":
            x, y = self.ev(t[3], env, d + 1), self.ev(t[4], env, d + 1)
            if isinstance(x, int) and isinstance(y, int):
                return {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[t[1]]
            z = 0 if t[1] == "BitAnd" else 1
            return z if t[1] != "BitXor" and z in (x, y) else None
        if k == "op" and t[1] in ("Eq", "Ne", "Lt", "Le"):
            x, y = self.ev(t[3], env, d + 1), self.ev(t[4], env, d + 1)
            if isinstance(x, int) and isinstance(y, int):
                return int({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y}[t[1]])
            if (x, y) in ((self.POS, 0), (0, self.POS)) and t[1] in ("Eq", "Ne"):
                return int(t[1] == "Ne")
            if x == self.POS and isinstance(y, int) and (t[1] == "Le" and y <= 0 or t[1] == "Lt" and y <= 1):
                return 0
            if y == self.POS and isinstance(x, int) and (t[1] == "Lt" and x <= 0 or t[1] == "Le" and x <= 1):
                return 1
            if t[1] in ("Eq", "Ne"):
                o = self.g.mk("op", "Ne" if t[1] == "Eq" else "Eq", *t[2:])
                if o in env:
                    return 1 - env[o]
            elif t[2] not in ("f64", "f32"):
                o = self.g.mk("op", "Le" if t[1] == "Lt" else "Lt", t[2], t[4], t[3])
                if o in env:
                    return 1 - env[o]
        return None

    FILLS = {"get_or_insert": 1, "get_or_insert_with": 1, "insert": 1, "replace": 1, "take": 0}
    COMB = {("R", "ok"): {0: 1, 1: 0}, ("R", "err"): {0: 0, 1: 1}, ("R", "map"): {0: 0, 1: 1}, ("R", "map_err"): {0: 0, 1: 1},
            ("R", "and_then"): {1: 1}, ("R", "or_else"): {0: 0}, ("R", "as_ref"): {0: 0, 1: 1}, ("R", "as_mut"): {0: 0, 1: 1},
            ("R", "copied"): {0: 0, 1: 1}, ("R", "cloned"): {0: 0, 1: 1}, ("R", "inspect"): {0: 0, 1: 1},
            ("R", "inspect_err"): {0: 0, 1: 1},
            ("O", "map"): {0: 0, 1: 1}, ("O", "and_then"): {0: 0}, ("O", "or_else"): {1: 1}, ("O", "ok_or"): {0: 1, 1: 0},
            ("O", "ok_or_else"): {0: 1, 1: 0}, ("O", "as_ref"): {0: 0, 1: 1}, ("O", "as_mut"): {0: 0, 1: 1},
            ("O", "as_deref"): {0: 0, 1: 1}, ("O", "copied"): {0: 0, 1: 1}, ("O", "cloned"): {0: 0, 1: 1},
            ("O", "filter"): {0: 0}, ("O", "inspect"): {0: 0, 1: 1}, ("O", "take"): {}}

    def comb(self, t):
        """variant map of an Option/Result combinator call node"""
        nm = t[2]
        k = "R" if "result::Result" in nm else "O" if "option::Option" in nm else None
        return self.COMB.get((k, nm.split("::")[-1])) if k and t[3] else None

    def learn(self, env, n, v):
        """records that node n has value v"""
        t = self.g.n[n]
        k = t[0]
        if n in self.R:
            env[n] = v
        if k == "not" or k == "flip":
            self.learn(env, t[1], 1 - v)
        elif k == "discr":
            x = t[1]
            if x in self.R and x not in env:
                env[x] = ("V", v, ())
                xt = self.g.n[x]
                if xt[0] == "branch":
                    self.learn(env, self.g.mk("discr", xt[1]), 1 - v if xt[2] == "Option" else v)
        elif k == "op" and t[1] in ("Eq", "Ne") and v in (0, 1):
            if (t[1] == "Eq") == bool(v):
                c = self.g.cval(t[4])
                if c is not None and t[3] in self.R:
                    self.learn(env, t[3], c)
        elif k == "op" and t[2] == "bool" and (t[1] == "BitAnd" and v == 1 or t[1] == "BitOr" and v == 0):
            for x in t[3:]:
                if x in self.R:
                    self.learn(env, x, v)
        elif k == "op" and t[2] == "bool" and t[1] in ("BitAnd", "BitOr") and v in (0, 1):
            for x, y in (t[3:5], t[4:2:-1]):
                if y in self.R and self.ev(x, env) == 1 - v:
                    self.learn(env, y, v)

    def enter(self, p, b, env):
        """facts after taking the edge p -> b"""
        ks = self.defat.get(b, ())
        new = {k: v for k, v in env.items() if k not in ks}
        for ph in self.phis_at.get(b, ()):
            op = self.g.phis.get((b, self.g.n[ph][2]), {}).get(p)
            if op is None:
                continue
            v = self.ev(op, env)
            if v is not None:
                new[ph] = v
        lv = self.live[b]
        return {k: v for k, v in new.items() if k in lv or k in self.always}

    def steps(self, b, env):
        """feasible (successor, facts)"""
        a = self.a
        t = a.flat.blocks[b].t
        if b in self.unwraps:
            n, good = self.unwraps[b]
            v = self.ev(n, env)
            if isinstance(v, tuple) and v[0] == "V" and v[1] != good:
                return
            env = dict(env)
            if v is None:
                self.learn(env, self.g.mk("discr", n), good)
        if t["k"] == "switch" and b in self.g.cond and len(a.succ[b]) > 1:
            c = self.g.cond[b]
            v = self.ev(c, env)
            pos = v == self.POS
            if isinstance(v, tuple):
                v = None
            if v is None and self.assume is not None:
                v = self.assume(c)
            live = set(a.succ[b])
            seen = set()
            for val, x in t["ts"]:
                if x.id not in live:
                    continue
                seen.add(val)
                if pos and val == 0:
                    continue
                if v is not None:
                    if v == val:
                        yield x.id, self.enter(b, x.id, env)
                    continue
                e = dict(env)
                self.learn(e, c, val)
                yield x.id, self.enter(b, x.id, e)
            ow = t["ow"].id
            if ow in live and (v is None or v not in [x for x, _ in t["ts"]]):
                e = dict(env)
                if v is None:
                    others = [x for x, _ in t["ts"]]
                    if a.cond_bool(b) and others == [0]:
                        self.learn(e, c, 1)
                    elif self.g.n[c][0] in ("discr", "flip") and len(others) == 1 and others[0] in (0, 1) and \
                            a.binary_enum(b):
                        self.learn(e, c, 1 - others[0])
                yield ow, self.enter(b, ow, e)
            return
        if t["k"] == "nondet" and b in self.g.hofrecv and all(w is not None for w in t["want"]):
            r = self.g.hofrecv[b]
            v = self.ev(r, env)
            known = v[1] if isinstance(v, tuple) and v[0] == "V" else None
            live = set(a.succ[b])
            for w, x in zip(t["want"], t["ts"]):
                if x.id in live and (known is None or known == w):
                    e = dict(env)
                    if known is None:
                        self.learn(e, self.g.mk("discr", r), w)
                    yield x.id, self.enter(b, x.id, e)
            x = t["ts"][-1].id
            if x in live and (known is None or known not in t["want"]):
                e = dict(env)
                if known is None and len(set(t["want"])) == 1:
                    self.learn(e, self.g.mk("discr", r), 1 - t["want"][0])
                yield x, self.enter(b, x, e)
            return
        for s in a.succ[b]:
            yield s, self.enter(b, s, env)

    def run(self, start, auto, step, done=None, env0=None):
        """start: block; auto: initial automaton state; step(block, auto, env) -> new auto state (or None to stop).
        Returns list of (block, auto, env, key) at terminals; self.parent allows to rebuild the path."""
        self.parent = {}
        ends = []
        st0 = (start, auto, frozenset((env0 or {}).items()))
        todo = [(st0, None)]
        seen = set()
        coarse = False
        while todo:
            s, par = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            self.parent[s] = par
            if len(seen) > self.limit and not coarse:
                coarse = True
            b, au, fe = s
            env = dict(fe)
            au = step(b, au, env)
            if au is None:
                continue
            if b in self.a.term:
                ends.append((b, au, env, s))
                continue
            for nb, ne in self.steps(b, env):
                if coarse:
                    ne = {}
                todo.append(((nb, au, frozenset(ne.items())), s))
        self.coarse = coarse
        self.states = len(seen)
        return ends

    def path(self, s):
        out = []
        while s is not None:
            out.append(s[0])
            s = self.parent[s]
        return out[::-1]


def _binary_enum(self, b):
    """is the operand of the discriminant switch in b a two-variant enum (Option, Result, ControlFlow)?"""
    c = self.g.cond[b]
    t = self.n[c]
    x = t[1] if t[0] in ("discr", "flip") else None
    if t[0] == "flip":
        return True
    return (x in self.g.bin2) if hasattr(self.g, "bin2") else False


Analysis.binary_enum = _binary_enum
