#!/usr/bin/env python3
"""Decides one property by static analysis of /repo's current source. Exit 0: holds. Exit 1: VIOLATION line(s)."""
import argparse, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
import extract
from ctx import Ctx
from reg import PROPS
import props, p_io, p_cli, p_out, p_byte, p_guard, p_struct, p_iter, p_stream, p_escape, p_factor, p_verdict, p_array, p_words, p_count


def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                d = l[len("finding:"):].strip()
                pr = d.split()[0].split("=", 1)[1]
                key, what = d.split("key=", 1)[1].split(" :: ", 1)
                out.append((pr, key.strip(), what.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--no-evidence", action="store_true")
    o = ap.parse_args()
    pid = o.property
    t0 = time.time()
    c = Ctx(pid, o.tier)
    try:
        fn, rule = PROPS[pid]
        fn(c)
    except extract.BuildError as x:
        print("ERROR: %s" % x)
        return 2
    except Exception as x:
        # a shape of the code the summaries do not foresee: what was decided before stands, the rest is not decided
        if o.tier == "thorough" or not c.obligations:
            raise
        tb = traceback.extract_tb(x.__traceback__)[-1]
        c.samples.insert(0, "NOT DECIDED from here on: %s (%s:%d)" % (type(x).__name__, os.path.basename(tb.filename), tb.lineno))
        print("NOT-DECIDED property=%s in part: %r" % (pid, x))
    kn = [(k, w) for p, k, w in known() if p == pid]
    new, old = [], []
    for v in c.violations:
        (old if any(k == v["key"] for k, _ in kn) else new).append(v)
    for k, w in kn:
        if any(v["key"] == k for v in old):
            print("KNOWN-FINDING: property=%s %s" % (pid, w))
    ev = {
        "property": pid, "tier": o.tier, "seed": int(os.environ.get("VERIF_SEED") or 0), "level": "other",
        "coverage": {
            "explanation": rule,
            "rule": rule,
            "measured": c.counts,
            "analysed_roots": sorted(c.roots),
            "functions_in_graph": len(c.fns),
            "functions": sorted(c.fns)[:200],
            "obligations_checked": c.obligations,
            "samples": c.samples[:12],
        },
        "assumptions": c.assumptions,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    rp = os.path.join(HERE, "evidence", pid + ".replay.json")
    if not o.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    if new:
        json.dump({"property": pid, "rule": rule, "violations": new}, open(rp, "w"), indent=1)
        for v in new:
            print("violation: %s: %s [key %s]" % (v["where"], v["what"], v["key"]))
            for l in v.get("path", ())[:40]:
                print("    " + l)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    print("OK property=%s obligations=%d roots=%d functions=%d (%.1f s)" % (pid, c.obligations, len(c.roots), len(c.fns), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
