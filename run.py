#!/usr/bin/env python3
"""run.py PROPERTY quick|thorough: decide one property on /repo's current tree."""
import json, os, re, sys, time, hashlib, traceback
import concurrent.futures as cf
import vlib
from vlib import log, V, B
import checks

PANIC_RC = (101, 134, -6, -4, -11, 139)


def known_findings(prop):
    f = os.path.join(V, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == prop]


def in_repo(e):
    """does the panic come from the code under test (and not from the harness itself)?"""
    i = e["id"]
    if "/repo/" in i or "/build/gen-src/" in i or "/build/flex-src/" in i:
        return True
    if "harness/" in i or re.match(r"\.\./core/|\.\./gen/|src/", i):
        return False
    # a location inside the standard library: whose call was it?
    for fr in e["stack"].split(" < "):
        if re.search(r"postgresql_cst_parser|8automata|parser_generator|lexer_generator", fr):
            return True
        if re.search(r"core_sym|gen_sym|8refparse|6reflex", fr):
            return False
    return False


def confirm(exe, inst, e):
    """replay natively; -> description of the failure or None"""
    rc, out = vlib.replay(exe, inst["entry"], inst["params"], e["inputs"])
    m = re.search(r"^ASSERT (.*)$", out, re.M)
    if e["kind"] == "assert":
        return "violated: " + m.group(1) if rc == 7 and m else None
    if e["kind"] == "limit":
        return "does not terminate" if rc is None else "uses memory without end" if "memory allocation of" in out else None
    if rc in PANIC_RC:
        p = re.search(r"panicked at ([^\n]*)\n?([^\n]*)", out)
        return "panic at %s %s" % (p.group(1), p.group(2)) if p else "crashed (%s)" % rc
    if rc == 7 and m:
        return "violated: " + m.group(1)
    return None


def describe(e):
    parts = []
    for k, v in e["inputs"]:
        parts.append(repr(bytes.fromhex(v).decode("utf-8", "replace")) if k == "b" else "#%s" % v)
    return (e["label"] + " " if e["label"] else "") + " ".join(parts)


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    c = checks.CHECKS[prop]
    insts = c["quick"] if tier == "quick" else c.get("thorough", c["quick"])
    budget = 600 if tier == "quick" else 3000
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": {}, "assumptions": list(checks.ASSUMPTIONS) + c.get("assumptions", []), "wall_s": 0, "violations": 0}
    evf = os.path.join(V, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evf), exist_ok=True)
    if os.path.exists(evf):
        os.unlink(evf)
    vlib.build_engine()
    ref = vlib.build_ref()
    builds = {}

    def build(kind):
        if kind not in builds:
            d = checks.BUILDS[kind]
            vlib.prepare(d)
            with cf.ThreadPoolExecutor(2) as ex:
                a = ex.submit(vlib.build_ir, d["ir"][0], d["ir"][1], d["cfgs"], d.get("features", ()), d.get("default_features", True))
                b = ex.submit(vlib.build_native, d["native"][0], d["native"][1], d["cfgs"], d.get("features", ()), d.get("default_features", True))
                builds[kind] = (a.result(), b.result())
            log("built", kind)
        return builds[kind]

    res, viol, known, unconfirmed = [], {}, {}, 0
    kf = known_findings(prop)
    validated = disagreements = 0
    fallback = False
    k = 0
    while k < len(insts):
        inst = dict({"params": {}, "time": 150, "build": "core"}, **insts[k])
        k += 1
        left = budget - (time.time() - t0)
        if left < 10:
            log("out of time before", inst["entry"], inst["params"])
            ev["assumptions"].append("not explored within the time: %s %s" % (inst["entry"], inst["params"]))
            continue
        try:
            ll, exe = build(inst["build"])
        except vlib.BuildError as e:
            # the guarded access does not fit the current code: decide the property through the public interface
            if "nohooks" not in c or inst["build"] == "core":
                raise
            if fallback:
                # nothing left that the harness can be bound to: said, not guessed
                log("cannot build %s either: %s" % (inst["build"], str(e)[-800:]))
                ev["assumptions"].append("the harness could not be bound to the current code at all: nothing was explored")
                break
            log("cannot build %s, using the public interface only: %s" % (inst["build"], str(e)[-800:]))
            ev["assumptions"].append("the harness %s could not be built; explored through the public interface only" % inst["build"])
            insts, k, fallback = c["nohooks"], 0, True
            continue
        r = vlib.run_engine(ll, inst["entry"], inst["params"], max_time=min(inst["time"], left), max_viol=60, seed=seed, samples=12, max_instr=inst.get("max_instr", 30000000))
        res.append((inst, r))
        log("%s %s: %d paths, %d instructions, %d queries (%.1f s solver), %.1f s%s %s %s" % (inst["entry"], inst["params"], r["n"].get("paths", 0), r["n"].get("instrs", 0), r["n"].get("queries", 0), r["n"].get("solver_s", 0), r["wall_s"], "" if r["complete"] else " INCOMPLETE", r["reach"], r["event_counts"] or ""))
        # counterexamples: replay on the real program before believing them
        per = {}
        for e in r["events"]:
            if e["kind"] == "engine":
                continue
            key = (e["kind"], e["id"])
            per.setdefault(key, []).append(e)
        for key, es in sorted(per.items()):
            tried = 0
            # few per kind, from different templates first
            es = sorted(es, key=lambda e: (len(json.dumps(e["inputs"])), e["label"]))
            labels = set()
            pick = [e for e in es if not (e["label"] in labels or labels.add(e["label"]))][:40] + es[:3]
            for e in pick:
                if key[0] in ("panic", "memory", "limit") and key[0] == "panic" and not in_repo(e):
                    unconfirmed += 1
                    log("panic in the harness:", e["id"], describe(e))
                    continue
                hit = next((f for f in kf if re.search(f.get("id", ""), e["id"]) and re.search(f.get("label", ""), e["label"]) and re.search(f.get("input", ""), "|".join(str(v) for _, v in e["inputs"]))), None)
                if hit:
                    known[hit["what"]] = hit
                    continue
                if tried >= 4:
                    break
                tried += 1
                d = confirm(exe, inst, e)
                if d is None:
                    unconfirmed += 1
                    log("not reproduced:", e["kind"], e["id"], describe(e))
                    continue
                viol.setdefault((d.split(" at ")[0] if d.startswith("violated") else d, inst["entry"]), (inst, e, d))
        # a sample of the explored paths must behave the same in the compiled program
        for s in r["samples"][: inst.get("validate", 12)]:
            rc, out = vlib.replay(exe, inst["entry"], inst["params"], s["inputs"])
            obs = re.findall(r"^OBS (\w*)$", out, re.M)
            if rc == 0 and obs == s["obs"]:
                validated += 1
            else:
                disagreements += 1
                log("sample differs from the compiled program:", rc, describe(s), obs[:3], s["obs"][:3], out[-200:])
        # each path that does not end costs the whole limit: the verdict is known, the rest would only be slow
        if len(viol) >= 5 or any(e["kind"] == "limit" for _, e, _ in viol.values()):
            break
    n = {}
    for inst, r in res:
        for x, v in r["n"].items():
            n[x] = n.get(x, 0) + v
    funcs = {}
    for inst, r in res:
        for k, v in r["funcs"].items():
            if re.search(r"postgresql_cst_parser|8automata|parser_generator|lexer_generator", k):
                funcs[k] = funcs.get(k, 0) + v
    reach = {}
    for inst, r in res:
        for k, v in r["reach"].items():
            reach[k] = reach.get(k, 0) + v
    missing = [x for x in c.get("reach", []) if not reach.get(x)] if not fallback else []
    if missing and not viol:
        log("vacuous: never reached", missing)
        ev["assumptions"].append("never reached: %s" % missing)
    exh = bool(res) and all(r["complete"] for _, r in res) and not any(r["event_counts"].get(k) for _, r in res for k in r["event_counts"] if k.startswith("engine"))
    samples = []
    for inst, r in res:
        for s in r["samples"][:3]:
            samples.append({"entry": inst["entry"], "params": inst["params"], "path": describe(s)})
    ev["coverage"] = {
        "states": n.get("paths", 0),
        "transitions": n.get("forks", 0),
        "traces_validated_against_impl": validated,
        "samples": samples[:30],
        "exhaustive": exh,
        "unit": "states = execution paths of the compiled code followed to their end, each for all the inputs that take it; transitions = branches on symbolic data decided by the solver",
        "bounds": c["bounds"] if isinstance(c["bounds"], str) else c["bounds"][tier],
        "instances": [{"entry": i["entry"], "params": i["params"], "paths": r["n"].get("paths", 0), "complete": r["complete"], "wall_s": r["wall_s"], "reached": r["reach"]} for i, r in res],
        "instructions_executed": n.get("instrs", 0),
        "assertions_checked": n.get("checks", 0),
        "solver_queries": n.get("queries", 0),
        "solver_queries_over_one_byte": n.get("dom_queries", 0),
        "solver_cache_hits": n.get("query_cache_hits", 0),
        "solver_sat": n.get("sat", 0),
        "solver_unsat": n.get("unsat", 0),
        "solver_unknown": n.get("unknown", 0),
        "solver_s": round(n.get("solver_s", 0), 2),
        "addresses_concretized": n.get("concretized", 0),
        "functions_encoded": sorted(funcs)[:400],
        "functions_encoded_count": len(funcs),
        "reference": ref,
        "unconfirmed_counterexamples": unconfirmed,
        "samples_disagreeing": disagreements,
    }
    ev["violations"] = len(viol)
    ev["wall_s"] = round(time.time() - t0, 2)
    json.dump(ev, open(evf, "w"), indent=1)
    for w in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, w), flush=True)
    rd = os.path.join(V, "evidence", "replay")
    for (d, _), (inst, e, full) in sorted(viol.items(), key=lambda x: str(x[0])):
        os.makedirs(rd, exist_ok=True)
        h = hashlib.md5(json.dumps([inst["entry"], inst["params"], e["inputs"]]).encode()).hexdigest()[:10]
        f = os.path.join(rd, "%s-%s.json" % (prop, h))
        json.dump({"property": prop, "entry": inst["entry"], "build": inst["build"], "params": inst["params"], "inputs": e["inputs"], "label": e["label"], "what": full, "readable": describe(e)}, open(f, "w"), indent=1)
        log("%s on %s" % (full, describe(e)))
        print("VIOLATION property=%s replay=%s" % (prop, f), flush=True)
    log("done: %d violations, %d unconfirmed, %d/%d samples agree, exhaustive=%s" % (len(viol), unconfirmed, validated, validated + disagreements, exh))
    return 1 if viol else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except vlib.BuildError as e:
        print("cannot build: %s" % e, flush=True)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
