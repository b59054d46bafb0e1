"""Command line, result lines, logging, determinism, word names: C09 .. C12, C17."""
import os, re
import extract
from common import *
from reg import prop
from props import sink_roots, writer_arg


# ------------------------------------------------------------------------------------------------ C09
I, O, PR = ("infilename", "i", "opt"), ("outfilename", "o", "opt"), ("prefixlength", "p", "0")
UM, ND = ("use-matrix", "u", "flag"), ("no-dollar", "n", "flag")
# long name (None: no long), short, kind: opt (optional value) | req | flag | list | the default value
CLI = {
    "bwt": [I, O, PR, UM, ND], "count_r": [I, PR, UM, ND], "count_runs": [I], "count_sigma": [I, PR],
    "count_z": [I, PR, O], "count_lexparse": [I, O, PR], "entropy": [I, PR, ("order", "o", "0")],
    "entropy_kmer": [I, PR, ("order", "o", "0")],
    "escape": [I, O, PR, ("escape-symbol", "e", "0"), ("from-symbols", "f", "list"), ("to-symbols", "t", "list"),
               ("is-reversion", None, "flag")],
    "is_stringattractor": [I, PR, ("attractor", "a", "list")], "lyndonfactorization": [I, O, PR],
    "lyndonwords": [(None, "l", "5"), (None, "s", "2"), O], "mtf": [I, O], "mus": [I, PR],
    "randomstring": [O, ("alphabet-size", "a", "req"), ("prefixlength", "p", "10")], "reverse": [I, O, PR],
    "rle": [I, O, ("onlyzero", None, "flag"), ("human", None, "flag")],
    "word": [(None, "k", "req"), ("name", "n", "req"), O],
}
WORDS = {"Fibonacci": ("fibonacci", "fibonacci_word"), "FibonacciLyndonFactor": ("fibonacci-lyndon-factor", "fibonacci_lyndonfactor"),
         "Tribonacci": ("tribonacci", "tribonacci_word"), "Kolakoski": ("kolakoski", "kolakoski_word"),
         "ThueMorse": ("thue-morse", "thuemorse_word"), "PeriodDoubling": ("period-doubling", "period_doubling_word"),
         "PaperFolding": ("paper-folding", "paperfolding_word"),
         "QuaternaryPaperFolding": ("quaternary-paper-folding", "quaternary_paperfolding_word"),
         "BinaryDeBrujin": ("binary-de-brujin", "binary_debruijn_word"), "Power2": ("power2", "power2_sequence"),
         "Vtm": ("vtm", "vtm_word")}


def argchain(a, n):
    """[(method, argument nodes)] of a builder value"""
    out, seen = [], set()
    while n not in seen:
        seen.add(n)
        t = a.n[a.strip(n)]
        if t[0] != "call":
            break
        out.append((t[2], t[3][1:] if t[3] else ()) if t[2].split("::")[-1] != "new" else (t[2], t[3]))
        if t[2].split("::")[-1] == "new" or not t[3]:
            break
        n = t[3][0]
    return out[::-1]


def declared(c, tool, prof):
    """the arguments a tool declares, from its clap Command: [{name, long, short, kind, default}]"""
    w = c.world(prof)
    root = tool + "::<Args as clap::CommandFactory>::command"
    derive = root in w.fns
    if not derive:
        root = tool + "::main"
    a = c.A(root, profile=prof)
    out = []
    for e in a.evs("arg"):
        if not isname(e["name"], "Command::arg") or len(e["snaps"]) < 2:
            continue
        d = {"name": None, "long": None, "short": None, "takes": True, "default": None, "required": False, "delim": None, "many": False,
             "block": e["block"], "action": None, "a": a, "aliases": [], "idx": None, "extra": []}
        for nm, args in argchain(a, e["snaps"][1]):
            last = nm.split("::")[-1]
            v = a.g.cval(a.strip(args[0])) if args else None
            s = a.text_const(args[0]) if args else None
            if last == "new":
                d["name"] = s.decode() if s is not None else None
            elif last == "short":
                d["short"] = chr(v) if v is not None else "?"
            elif last == "long":
                d["long"] = s.decode() if s is not None else "?"
            elif last in ("alias", "visible_alias", "short_alias", "visible_short_alias"):
                d["aliases"].append(chr(v) if v is not None else s.decode() if s else "?")
            elif last == "action":
                t = a.n[a.strip(args[0])]
                d["action"] = t[1][3] if t[0] == "agg" else None
                d["takes"] = d["action"] not in ("SetTrue", "SetFalse", "Count", "Help", "Version")
                d["many"] = d["action"] == "Append"
            elif last == "required":
                t = a.n[a.strip(args[0])]
                d["required"] = bool(v) if v is not None else t[0] == "call" and t[2].endswith("takes_values")
                if v is None and t[0] == "call" and d["action"] is None:
                    d["required"] = "takes"
            elif last == "default_value":
                d["default"] = default_of(c, a, w, args[0], prof)
            elif last == "value_delimiter":
                d["delim"] = chr(v) if v is not None else None
            elif last in ("requires", "conflicts_with", "conflicts_with_all", "exclusive", "default_missing_value", "env", "hide", "last",
                          "default_value_if", "required_unless_present", "required_if_eq"):
                d["extra"].append(last)
        if d["required"] == "takes":
            d["required"] = d["takes"]
        out.append(d)
    return a, out


def default_of(c, a, w, n, prof):
    """the constant a default_value_t stands for"""
    s = a.text_const(n)
    if s is not None and a.n[a.strip(n)][0] == "const":
        return s.decode("utf8", "replace")
    for x in a.deps(n):
        t = a.n[x]
        if t[0] == "agg" and t[1][0] == "closure":
            fid = t[1][1]
            if fid not in w.fns:
                fid = next((k for k in w.fns if k.endswith(fid)), None)
            if fid is None:
                continue
            b = c.A(fid, profile=prof)
            for e in b.evs(log=True):
                if e["last"] == "to_string" and e["snaps"]:
                    v = b.g.cval(b.strip(e["snaps"][0]))
                    if v is not None:
                        return str(v)
    return "?"


def invocations():
    """(file, line, tool, [words]) of the documented command lines"""
    out = []
    for f in ("README.md", "compute_stats.sh", "gen_artificial.sh"):
        p = os.path.join(extract.REPO, f)
        if not os.path.exists(p):
            continue
        for i, l in enumerate(open(p, encoding="utf8", errors="replace"), 1):
            if l.lstrip().startswith("#"):
                continue
            for m in re.finditer(r"--bin[= ]([\w-]+)(?:\s+--(?=\s)([^|>)`]*))?", l):
                out.append((f, i, m.group(1), (m.group(2) or "").split()))
            for m in re.finditer(r"`(\w+)((?:\s+-{1,2}[a-z][\w-]*(?:[ =][\w$\"]+)?)+)[^`]*`", l):
                out.append((f, i, m.group(1), m.group(2).split()))
    return out


@prop("C09", "each tool's clap Command is evaluated from MIR (the builder chain of every Command::arg): short and long names are unique and do "
      "not clash with -h/--help and -V/--version, every documented option is declared with its names, arity, default and separator, and every "
      "command line in README.md, compute_stats.sh and gen_artificial.sh names an existing tool and options it declares")
def c09(c):
    n = 0
    for prof in c.profiles():
        decl = {}
        for tool in c.tools(prof):
            if tool in ("enumerate_lexparse", "generator_kmer"):
                continue
            a, ds = declared(c, tool, prof)
            decl[tool] = ds
            hasver = any(e["last"] in ("version", "long_version") and "Command" in e["name"] for e in a.evs(log=True))
            shorts, longs, names = {"h": "help"}, {"help": "help"}, {}
            for e in a.evs(log=True):
                if e["last"] in ("disable_help_flag",):
                    shorts.pop("h", 0), longs.pop("help", 0)
                if e["last"] == "disable_version_flag":
                    hasver = False
            if hasver:
                shorts["V"], longs["version"] = "version", "version"
            for d in ds:
                n += 1
                c.ok(1, "declared arguments")
                key = "%s|%s" % (tool, d["name"])
                for kind, tab, v in [("-", shorts, d["short"]), ("--", longs, d["long"])] + \
                        [("-" if len(x) == 1 else "--", shorts if len(x) == 1 else longs, x) for x in d["aliases"]]:
                    if v is None:
                        continue
                    if v in tab:
                        c.violate(key + "|clash", a.where(d["block"]), "%s: %s%s is declared for both %s and %s: clap refuses every start"
                                  % (tool, kind, v, tab[v], d["name"]))
                    tab[v] = d["name"]
                if d["name"] in names:
                    c.violate(key + "|name", a.where(d["block"]), "%s: two arguments are named %s" % (tool, d["name"]))
                names[d["name"]] = d
            c.sample("%s: %s" % (tool, " ".join((("-" + d["short"] if d["short"] else "") + ("/--" + d["long"] if d["long"] else ""))
                                                or "<%s>" % d["name"] for d in ds)))
            for lg, sh, kind in CLI.get(tool, ()):
                c.ok(1, "documented options")
                d = next((d for d in ds if (lg and d["long"] == lg) or (not lg and d["short"] == sh)), None)
                key = "%s|%s" % (tool, lg or sh)
                if d is None:
                    c.violate(key + "|missing", tool + "::Args", "%s: the option --%s is gone" % (tool, lg or sh))
                    continue
                w = a.where(d["block"])
                if sh and d["short"] != sh and sh not in d["aliases"]:
                    c.violate(key + "|short", w, "%s: the short option of --%s is not -%s" % (tool, lg, sh))
                if (kind == "flag") == d["takes"]:
                    c.violate(key + "|arity", w, "%s: --%s %s" % (tool, lg or sh, "takes no value" if kind != "flag" else "takes a value"))
                if d["required"] != (kind == "req") or (kind == "req" and d["default"] is not None):
                    c.violate(key + "|required", w, "%s: --%s is %s" % (tool, lg or sh, "required" if d["required"] else "not required"))
                if kind == "list" and not d["many"]:
                    c.violate(key + "|list", w, "%s: --%s accepts only one value" % (tool, lg))
                if kind == "list" and tool == "escape" and d["delim"] != ",":
                    c.violate(key + "|delim", w, "%s: --%s is not split at commas, as its help says" % (tool, lg))
                want = kind if kind.isdigit() else None
                if d["default"] != want:
                    c.violate(key + "|default", w, "%s: the default of --%s is %s instead of %s" % (tool, lg or sh, d["default"], want))
                if d["extra"]:
                    c.violate(key + "|extra", w, "%s: --%s is subject to %s" % (tool, lg or sh, d["extra"][0]))
            for nm, ty in argfields(c, tool).items():
                m = re.match(r"(?:.*[<:])?([ui](?:8|16|32|size|64|128))>?$", ty)
                if m and nm in ("prefixlength", "length", "attractor"):
                    c.ok(1, "numeric options")
                    if m.group(1) not in ("u64", "usize", "u128"):
                        c.violate("%s|%s|type" % (tool, nm), tool + "::Args", "%s: %s is held in a %s, so that large values are refused" % (tool, nm, m.group(1)))
            if tool == "enumerate":
                pos = [(d["name"], d["required"]) for d in ds if not d["short"] and not d["long"]]
                if pos != [("alphabet_size", True), ("min_len", True), ("max_len", False)]:
                    c.violate("enumerate|positional", "enumerate::main", "the arguments are not <alphabet_size> <min_len> [max_len]")
        words = word_values(c, prof)
        for v, (cli, fn) in WORDS.items():
            c.ok(1, "word names")
            if cli not in words:
                c.violate("word|" + cli, "word::WordName", "the word name %s is not accepted" % cli)
        tools = set(c.tools(prof))
        for f, i, tool, ws in invocations():
            c.ok(1, "documented command lines")
            key = "%s|%s" % (f, tool)
            if tool not in tools:
                c.violate(key + "|tool", "%s:%d" % (f, i), "there is no tool %s" % tool)
                continue
            ds = decl.get(tool, ())
            k = 0
            while k < len(ws):
                x = ws[k]
                k += 1
                if not x.startswith("-"):
                    continue
                m = re.match(r"--([\w-]+)", x)
                nm = m.group(1) if m else x[1:2]
                d = next((d for d in ds if nm in (d["long"] if m else d["short"], *d["aliases"])), None)
                if d is None:
                    c.violate(key + "|" + nm, "%s:%d" % (f, i), "%s has no option %s" % (tool, x))
                elif d["takes"] and "=" not in x:
                    if k >= len(ws) or ws[k].startswith("-"):
                        c.violate(key + "|" + nm + "|value", "%s:%d" % (f, i), "%s %s needs a value" % (tool, x))
                    elif tool == "word" and d["name"] == "name" and "$" not in ws[k] and ws[k].strip('"') not in words:
                        c.violate(key + "|" + ws[k], "%s:%d" % (f, i), "word does not know %s" % ws[k])
                    k += 1
                elif not d["takes"] and "=" in x:
                    c.violate(key + "|" + nm + "|value", "%s:%d" % (f, i), "%s %s takes no value" % (tool, x))
        g = os.path.join(extract.REPO, "gen_artificial.sh")
        if os.path.exists(g):
            for l in open(g):
                m = re.match(r"\s*for name in ([\w\s-]+);", l)
                for x in m.group(1).split() if m else ():
                    c.ok(1, "word names in scripts")
                    if x not in words:
                        c.violate("gen_artificial.sh|" + x, "gen_artificial.sh", "word does not know %s" % x)
    c.floor("declared arguments in all tools", n, 30)


def word_values(c, prof):
    w = c.world(prof)
    root = "word::<WordName as clap::ValueEnum>::to_possible_value"
    if root not in w.fns:
        return {}
    a = c.A(root, profile=prof)
    out = {}
    for e in a.evs(log=True):
        if e["last"] in ("new", "alias", "aliases") and "PossibleValue" in e["name"]:
            s = a.text_const(e["snaps"][-1])
            if s is not None:
                out[s.decode()] = e["block"]
    return out


# ------------------------------------------------------------------------------------------------ C17
@prop("C17", "the tool `word` is analysed once per word name, with that name known and the generators opaque: exactly one generator is called, "
      "it is the one of that name, its argument is the option -k unchanged, and exactly its result is written; the accepted spelling of the "
      "name is the documented one")
def c17(c):
    n = 0
    for prof in c.profiles():
        w = c.world(prof)
        enum = variants_of(c, prof)
        c.floor("word names", len(enum), 1)
        gens = tuple("stringology::word::" + fn for _, fn in WORDS.values())
        root = "word::<WordName as clap::ValueEnum>::to_possible_value"
        for v, (cli, fn) in WORDS.items():
            if v not in enum:
                c.violate("word|%s|gone" % v, "word::WordName", "the word name %s is gone" % cli)
                continue
            n += 1
            idx, adt = enum[v]
            a = c.A("word", {"name": ("variant", adt, idx, v, 0)}, opaque=gens, profile=prof)
            calls = {}
            for b in a.normal:
                e = a.events.get(b)
                if e and (e["name"] in gens or any(isname(e["name"], "word::" + f) for _, f in WORDS.values())):
                    calls[b] = e
            key = "word|" + v
            c.sample("%s -> %s" % (cli, sorted({e["last"] for e in calls.values()})))
            c.ok(1, "names")
            names = {e["last"] for e in calls.values()}
            if names != {fn}:
                c.violate(key, "word::main", "%s is made by %s instead of %s" % (cli, ", ".join(sorted(names)) or "nothing", fn))
                continue
            for b, e in calls.items():
                if not plain_field(a, e["snaps"][0], "k"):
                    c.violate(key + "|k", a.where(b), "%s: the generator is not called with -k itself but with %s"
                              % (cli, a.g.show(e["snaps"][0], 4)))
            nodes = {e["node"] for e in calls.values()}
            wrote = 0
            for e in a.evs("write_all", "write"):
                if e["block"] in a.normal and "Write" in e["name"] and len(e["snaps"]) > 1:
                    wrote += 1
                    x = a.strip(e["snaps"][1])
                    if x not in nodes and a.n[x][0] in ("eff", "proj", "slice", "load", "upd", "store", "const", "agg"):
                        c.violate(key + "|data", a.where(e["block"]), "%s: what is written is not the generated word: %s" % (cli, a.g.show(x, 4)))
            pv = c.A(root, profile=prof) if root in w.fns else None
            if pv is not None:
                s = possible_of(pv, idx)
                if s is not None and s != cli:
                    c.violate(key + "|name", "word::WordName", "the word %s is selected by the name %s" % (v, s))
    c.floor("word names analysed", n, 8)


def variants_of(c, prof):
    w = c.world(prof)
    out = {}
    f = w.fns.get("word::<WordName as clap::ValueEnum>::value_variants")
    if f is not None:
        a = c.A(f["id"], profile=prof)
        for t in a.n:
            if t[0] == "agg" and t[1][0] == "adt" and t[1][1].endswith("WordName"):
                out[t[1][3]] = (t[1][2], t[1][1])
        todo = [x for f2 in w.fns.values() if f2["id"].startswith(f["id"]) for x in f2["blocks"]]
    if not out:
        for f in w.fns.values():
            if f["crate"] != "word" or "WordName" not in f["id"]:
                continue
            for b in f["blocks"]:
                for s in b["st"]:
                    if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"].get("adt", "").endswith("WordName"):
                        out[s["r"]["vn"]] = (s["r"].get("vi", 0), s["r"]["adt"])
    return out


def possible_of(a, idx):
    """spelling of the variant with the given index"""
    for e in a.evs(log=True):
        if e["last"] == "new" and "PossibleValue" in e["name"]:
            for cond, v in a.facts(e["block"]):
                if a.n[cond][0] == "discr" and v == idx:
                    s = a.text_const(e["snaps"][-1])
                    return s.decode() if s else None
    return None


def plain_field(a, n, name):
    """is n the parsed option `name`, unchanged?"""
    n = a.strip(n)
    t = a.n[n]
    if t[0] == "sym":
        return t[1] == name
    if t[0] == "proj" and t[2][0] == "f" and t[2][2] == name:
        b = t
        while b[0] in ("proj", "at", "with"):
            b = a.n[b[1]]
        return b[0] == "call"
    return False


# ------------------------------------------------------------------------------------------------ C11
def is_init(e):
    nm = e["name"]
    return isname(nm, "env_logger::init", "env_logger::try_init", "env_logger::init_from_env", "env_logger::try_init_from_env",
                  "env_logger::Builder::init", "env_logger::Builder::try_init", "log::set_logger", "log::set_boxed_logger") or \
        "env_logger" in nm and e["last"] in ("init", "try_init", "init_from_env", "try_init_from_env")


def is_logevent(e):
    return "log::__private_api" in e["name"] and e["last"] in ("log", "log_impl", "enabled") or isname(e["name"], "log::max_level")


@prop("C11", "typestate (logger not started / started) over all feasible paths of every tool: no log event and no test of the log level while "
      "the logger is not started, no second start; the logger reads RUST_LOG, writes to standard error, and its level is not overridden")
def c11(c):
    nl = ni = 0
    for prof in c.profiles():
        for tool in c.tools(prof):
            a = c.A(tool, profile=prof)
            ex = c.explorer(a)
            init = {e["block"]: e for e in a.evs(log=True) if is_init(e)}
            logs = {e["block"]: e for e in a.evs(log=True) if is_logevent(e)}
            nl += len(logs)
            ni += len(init)
            c.ok(len(init), "logger starts")
            c.ok(len(logs), "log events")
            for b, e in init.items():
                ch = argchain(a, e["snaps"][0]) if e["snaps"] else []
                lasts = [x[0].split("::")[-1] for x in ch]
                calls = [x for s in e["snaps"] for x in a.depcalls(s)]
                if "Builder" in e["name"]:
                    if not any(x[2].split("::")[-1] in ("from_default_env", "from_env", "parse_default_env", "parse_env") for x in calls):
                        c.violate("%s|env" % tool, a.where(b), "%s: the logger does not follow RUST_LOG" % tool)
                for x in calls:
                    if x[2].split("::")[-1] in ("target",):
                        t = a.n[a.strip(x[3][1])]
                        if t[0] == "agg" and t[1][3] == "Stdout":
                            c.violate("%s|stdout" % tool, a.where(b), "%s: log messages go to standard output" % tool)
                    if x[2].split("::")[-1] in ("filter_level", "filter", "filter_module"):
                        c.violate("%s|level" % tool, a.where(b), "%s: the log level is fixed in the program" % tool)
            for e in a.evs(log=True):
                if isname(e["name"], "log::set_max_level"):
                    c.violate("%s|max_level" % tool, a.where(e["block"]), "%s: the log level is fixed in the program" % tool)
                if isname(e["name"], "env::set_var", "env::remove_var"):
                    c.violate("%s|env" % tool, a.where(e["block"]), "%s: the environment is changed" % tool)

            def step(b, au, env):
                if b in init:
                    if au:
                        c.violate("%s|twice" % tool, a.where(b), "%s: the logger is started a second time, which panics" % tool)
                        return None
                    return 1
                if b in logs and not au:
                    c.violate("%s|%s|early" % (tool, a.fn(b)), a.where(b), "%s: a log event is lost: the logger has not been started" % tool)
                    return None
                return au
            ex.run(a.entry, 0, step)
            c.sample("%s: %d starts, %d log events" % (tool, len(init), len(logs)))
        for fid, f in c.world(prof).fns.items():
            if f["crate"] != "stringology":
                continue
            for b in f["blocks"]:
                t = b["t"]
                nm = (t.get("fun") or {}).get("fn", "") if t["k"] == "call" else ""
                if nm and "env_logger" in nm:
                    c.violate("lib|%s" % fid, fid, "the library starts the logger itself")
    c.floor("log events in all tools", nl, 10)
    c.floor("logger starts in all tools", ni, 5)


# ------------------------------------------------------------------------------------------------ C12
NONDET = re.compile(r"(^|::)(SystemTime|UNIX_EPOCH|ThreadRng|OsRng)|^rand::|::thread_rng$|rand::random|process::id$|thread::(current|spawn|scope|available_parallelism)|"
                    r"env::(var|vars|temp_dir|current_dir|current_exe|var_os|vars_os|home_dir)$|getrandom|from_entropy|RandomState::new$|hash_one$")
HASH = re.compile(r"(HashMap|HashSet|hash_map::\w+|hash_set::\w+)<")
HITER = {"iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "into_iter", "retain", "union",
         "intersection", "difference", "symmetric_difference", "extract_if"}
ORDERLESS = {"count", "any", "all", "len", "is_empty"}


@prop("C12", "effect analysis of everything reachable from every tool: no random source (except in randomstring), wall clock, process or thread "
      "identity, environment or pointer value; no iteration over a hash table whose order can reach a result; elapsed time flows only into the "
      "value printed as time_ms and into log messages")
def c12(c):
    nt = nh = 0
    for prof in c.profiles():
        for tool in c.tools(prof):
            a = c.A(tool, profile=prof)
            clocks = set()
            for e in a.evs(log=True):
                b, nm = e["block"], e["name"]
                key = "%s|%s|%s" % (tool, a.fn(b), nm)
                tys = [e["self"]] + list(e["atys"])
                if NONDET.search(nm) and not a.islog(e):
                    rnd = "rand" in nm
                    if not (tool == "randomstring" and rnd) and nm.split("::")[-1] not in ("RandomState",):
                        if not (isname(nm, "RandomState::new")):
                            c.violate(key, a.where(b), "%s: the result depends on %s" % (tool, nm))
                if "Instant::now" in nm or "Instant::elapsed" in nm or "duration_since" in nm:
                    clocks.add(e["node"])
                if any(HASH.search(x) for x in tys[:2]):
                    nh += 1
                    c.ok(1, "hash table operations")
                    if e["last"] in HITER and not orderless(a, e):
                        c.violate(key, a.where(b), "%s: iterates over a hash table, whose order changes from run to run" % tool)
                if e["last"] in ("addr", "expose_provenance", "expose_addr", "to_bits") and "ptr::" in nm:
                    c.violate(key, a.where(b), "%s: an address is turned into a number" % tool)
                if e["last"] == "new_pointer":
                    c.violate(key, a.where(b), "%s: an address is printed" % tool)
            for b in sorted(a.reached):
                for ev in a.g.trace.get(b, ()):
                    bad = None
                    if ev[0] == "cast" and a.n[ev[1]][0] == "cast" and re.match(r"\*(const|mut) |(unsafe |extern \S+ )*fn\(", a.n[ev[1]][1]) and a.n[ev[1]][2] in INT:
                        bad = "an address is turned into a number"
                    elif ev[0] == "bin" and ev[3] in ("Lt", "Le", "Gt", "Ge", "Cmp") and str(ev[4]).startswith("*"):
                        bad = "addresses are compared"
                    if bad and not (b in a.events and a.islog(a.events[b])):
                        c.violate("%s|%s|address" % (tool, a.fn(b)), a.where(b), "%s: %s" % (tool, bad))
            nt += len(clocks)
            c.ok(len(clocks), "clock readings")
            if not clocks:
                continue
            tainted = lambda n: any(x in clocks for x in a.deps(n))
            for b in a.reached:
                if b in a.g.cond and a.flat.blocks[b].t["k"] == "switch" and len(a.succ[b]) > 1 and tainted(a.g.cond[b]):
                    c.violate("%s|%s|branch" % (tool, a.fn(b)), a.where(b), "%s: a decision depends on the clock" % tool)
            for e in a.evs():
                b = e["block"]
                isw = "io::Write::" in e["name"] or e["last"] == "_print"
                if not isw or not e["snaps"]:
                    continue
                parts = a.fmt(e["snaps"][-1]) if e["last"] in ("_print", "write_fmt") else a.strparts(e["snaps"][-1])
                if parts is None:
                    continue
                prev = b""
                for p in parts:
                    if p[0] == "arg":
                        if tainted(p[1]) and not prev.endswith(b"time_ms="):
                            c.violate("%s|%s|time" % (tool, a.fn(b)), a.where(b), "%s: the clock is printed other than as time_ms" % tool)
                        prev = b""
                    else:
                        prev = p[1]
            c.sample("%s: %d clock readings" % (tool, len(clocks)))
    c.floor("clock readings in all tools", nt, 5)


def orderless(a, e):
    """is the iteration consumed by something that does not see the order?"""
    n = e["node"]
    users = [x for x in a.evs(log=True) if x is not e and any(n in a.deps(s) for s in x["snaps"])]
    direct = [x for x in users if x["snaps"] and a.strip(x["snaps"][0]) == n]
    if direct and all(x["last"] in ORDERLESS or x["last"] in ("sum", "max", "min", "product") and "f64" not in x["dty"] and "f32" not in x["dty"]
                      or x["last"] == "collect" and ("BTree" in x["dty"] or "Hash" in x["dty"]) for x in direct):
        return True
    return any("sort" in x["last"] for x in users)
