#!/usr/bin/env python3
"""check.py --property ID [--tier quick|thorough] : decides one property on /repo's working tree."""
import argparse, json, os, re, subprocess, sys, time, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as bld
import configs

VERIF = bld.VERIF

def argstr(a): return ["%s=%s" % kv for kv in a.items()]

def run_sym(exe, args, opts, log, tier, seed):
    env = dict(os.environ)
    q = tier == "quick"
    env.update(SYM_LOG=log, VERIF_SEED=str(seed),
               SYM_PATHS=str(opts.get("paths", 400 if q else 5000)),
               SYM_TIME=str(opts.get("time", 25 if q else 300)),
               SYM_RLIMIT=str(opts.get("rlimit", 3000000 if q else 20000000)),
               SYM_ZCAP="4" if q else "120", SYM_ZTIMEOUT="3000" if q else "20000",
               SYM_GENERIC="1" if opts.get("generic") else "0",
               SYM_PATHTIME=str(opts.get("pathtime", 25 if q else 120)), SYM_PAR="0")
    t = float(env["SYM_TIME"]) + float(env["SYM_PATHTIME"]) + 15
    msg = None
    try:
        p = subprocess.Popen([exe] + argstr(args), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True,
                             preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (6 << 30, 6 << 30)))
        try: rc = p.wait(timeout=t)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); p.wait(); msg = "symbolic run stopped after %.0f s" % t; rc = None
        if rc not in (0, None): msg = "symbolic run ended with status %s" % rc
    except OSError as e: msg = str(e)
    lines = []
    try:
        with open(log) as f:
            for l in f:
                try: lines.append(json.loads(l))
                except ValueError: pass
    except OSError: pass
    return lines, msg

def functions(exes, results):
    """names of the library functions executed symbolically in this run"""
    addr = {}
    for r in results: addr.setdefault(r["cfg"]["harness"], set()).update(r["summary"].pop("fns", []))
    names = set()
    for h, a in addr.items():
        if not a or h not in exes: continue
        out = subprocess.run(["nm", "-C", exes[h][0]], stdout=subprocess.PIPE, text=True).stdout
        for l in out.split("\n"):
            t = l.split(" ", 2)
            if len(t) == 3 and t[1] in "tTwW":
                try: x = int(t[0], 16)
                except ValueError: continue
                if x in a: names.add(t[2].replace("NTL::", "").replace("PML::", ""))
    return sorted(n for n in names if not n.startswith(("std::", "Vec<", "Mat<", "void std::", "harness")))

def line_of(r): return " ".join(map(str, r.get("vars", []))) + " | " + " ".join(map(str, r.get("ints", [])))

def run_real(exe, args, lines, timeout=20):
    a = argstr(args) + ["timeout=%d" % timeout]
    try:
        p = subprocess.run([exe] + a, input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout * 6 + 60)
        out = p.stdout.split("\n")
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode().split("\n")
    return out[:len(lines)]

def load_known():
    known = []
    with open(os.path.join(VERIF, "known_findings.jsonl")) as f:
        for l in f:
            l = l.strip()
            if l and not l.startswith("#"):
                k = json.loads(l)
                if k.get("status") == "known": known.append(k)
    return known

def known_match(known, prop, harness, args, verdict):
    for k in known:
        if k["property"] != prop or k["harness"] != harness: continue
        if any(str(args.get(a)) not in [str(x) for x in (v if isinstance(v, list) else [v])] for a, v in k.get("args", {}).items()): continue
        if not re.search(k["verdict"], verdict): continue
        return k
    return None

def job(exes, prop, cfg, tier, seed, tmp, i):
    t0 = time.time()
    s, r = exes[cfg["harness"]]
    args = dict(cfg["args"]); args["seed"] = int(args.get("seed", 1)) + 100 * (seed - 1)
    log = os.path.join(tmp, "log%d" % i)
    lines, msg = run_sym(s, args, cfg, log, tier, seed)
    res = dict(cfg=cfg, args=args, notes=[msg] if msg else [], viol=[], replayed=0, obs_mismatch=0, cands=0, cand_repro=0, samples=[])
    res["summary"] = next((x for x in lines if x["type"] == "summary"), {})
    paths = [x for x in lines if x["type"] == "path"]; cands = [x for x in lines if x["type"] == "cand"]
    for x in lines:
        if x["type"] == "error": res["notes"].append("engine: " + x.get("msg", ""))
        if x["type"] in ("unmodelled",): res["notes"].append("unmodelled: " + x.get("msg", ""))
        if x["type"] == "undecided_obligation": res["notes"].append("undecided: " + x.get("msg", ""))
    res["cands"] = len(cands)
    # replay: every candidate (first 60), every path's model (first 150), on the real build
    seen, todo = set(), []
    for x in cands[:60] + [x for x in lines if x["type"] == "unmodelled"][:10] + paths[:150 if tier == "quick" else 1000]:
        l = line_of(x)
        if l in seen: continue
        seen.add(l); todo.append((x, l))
    if not todo and not lines:
        todo = [({"type": "none"}, " | ")]
    out = run_real(r, args, [l for _, l in todo])
    for (x, l), o in zip(todo, out):
        res["replayed"] += 1
        if o.startswith("OK"):
            if x["type"] == "path":
                got = o.split()[1:]
                if got != [str(v) for v in x.get("obs", [])]: res["obs_mismatch"] += 1
        elif o.startswith("SKIP") or not o: pass
        else:
            if x["type"] == "cand": res["cand_repro"] += 1
            res["viol"].append((o, l, x.get("kind", x["type"]), x.get("msg", "")))
    for x in paths[:2]: res["samples"].append(dict(harness=cfg["harness"], args=args, vars=x["vars"][:24], ints=x["ints"]))
    res["wall"] = time.time() - t0
    return res

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--verbose", action="store_true"); ap.add_argument("--only")
    A = ap.parse_args(); t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); tier = A.tier if A.tier in ("quick", "thorough") else "quick"
    prop = A.property; cfgs = configs.get(prop, tier)
    if A.only: cfgs = [c for c in cfgs if A.only in (c["harness"] + " " + " ".join(argstr(c["args"])))]
    b = bld.Build()
    for c in cfgs: b.add(c["harness"])
    b.run(); notes = list(b.problems); exes = {}
    with ThreadPoolExecutor(bld.JOBS) as ex:
        for h, (s, r, m) in zip(list(b.harness), ex.map(b.link, list(b.harness))):
            notes += m
            if s and r: exes[h] = (s, r)
    tb = time.time() - t0
    runnable = [c for c in cfgs if c["harness"] in exes]
    tmp = tempfile.mkdtemp(prefix="pmlv_")
    budget = t0 + (float(os.environ.get("VERIF_BUDGET", "0")) or (780 if tier == "quick" else 6 * 3600))
    results = []; found = []; stop = os.environ.get("VERIF_STOP") == "1"   # VERIF_STOP=1: stop at the first violation
    def guarded(ic):
        i, c = ic
        if time.time() > budget or (stop and found): return dict(cfg=c, args=c["args"], notes=["skipped: time budget"], viol=[], replayed=0, obs_mismatch=0, cands=0, cand_repro=0, samples=[], summary={}, wall=0, skipped=True)
        try:
            r = job(exes, prop, c, tier, seed, tmp, i)
            if r["viol"]: found.append(i)
            return r
        except Exception as e:
            return dict(cfg=c, args=c["args"], notes=["driver: %r" % e], viol=[], replayed=0, obs_mismatch=0, cands=0, cand_repro=0, samples=[], summary={}, wall=0)
    try:
        with ThreadPoolExecutor(bld.JOBS) as ex: results = list(ex.map(guarded, enumerate(runnable)))
    finally: shutil.rmtree(tmp, ignore_errors=True)
    known = load_known(); viols, knowns = [], {}
    for r in results:
        for (o, l, kind, m) in r["viol"]:
            k = known_match(known, prop, r["cfg"]["harness"], r["args"], o)
            if k: knowns.setdefault(k["id"], (k, 0)); knowns[k["id"]] = (k, knowns[k["id"]][1] + 1)
            else: viols.append((r, o, l, kind, m))
    fns = functions(exes, results)
    tot = {}
    for r in results:
        for k, v in r["summary"].items():
            if isinstance(v, (int, float)) and k not in ("p", "wall_s", "type"): tot[k] = max(tot.get(k, 0), v) if k in ("maxterms", "nvars") else tot.get(k, 0) + v
    complete = [r for r in results if r["summary"] and not r["summary"].get("skipped") and not r["summary"].get("undecided") and not r["summary"].get("unmodelled")
                and not r["summary"].get("errors") and not r["summary"].get("generic_forced") and not r["cfg"].get("generic")]
    nl = sorted({"%s %s: %s" % (r["cfg"]["harness"], " ".join(argstr(r["args"])), n) for r in results for n in r["notes"]})
    ev = dict(property=prop, tier=tier, seed=seed, level=configs.LEVEL, wall_s=round(time.time() - t0, 2), violations=len(viols),
              assumptions=configs.ASSUMPTIONS + configs.BOUNDS.get(prop, []),
              coverage=dict(states=int(tot.get("paths", 0)), transitions=int(tot.get("branches", 0)), traces_validated_against_impl=sum(r["replayed"] for r in results),
                  samples=[s for r in results for s in r["samples"]][:6],
                  functions_encoded=fns, functions_encoded_count=len(fns),
                  configurations=len(results), configurations_not_built=len(cfgs) - len(runnable), configurations_decided_completely=len(complete),
                  configurations_bounded=[dict(h=r["cfg"]["harness"], args=r["args"], generic=bool(r["cfg"].get("generic")), paths_skipped=r["summary"].get("skipped"), undecided=r["summary"].get("undecided"), unmodelled=r["summary"].get("unmodelled"))
                                          for r in results if r not in complete][:80],
                  bounds=[dict(h=r["cfg"]["harness"], args=r["args"], paths=r["summary"].get("paths"), vars=r["summary"].get("nvars"), queries=r["summary"].get("queries"), p=r["summary"].get("p")) for r in results][:400],
                  solver_queries=int(tot.get("queries", 0)), sat=int(tot.get("sat", 0)), unsat=int(tot.get("unsat", 0)), unknown=int(tot.get("unknown", 0)),
                  solver_seconds=round(tot.get("solver_s", 0), 3), obligations=int(tot.get("obligations", 0)), concrete_obligations=int(tot.get("concrete_obligations", 0)),
                  candidates=sum(r["cands"] for r in results), candidates_not_reproduced=sum(r["cands"] - r["cand_repro"] for r in results),
                  observation_mismatches=sum(r["obs_mismatch"] for r in results), inconclusive=(notes + nl)[:60], build_s=round(tb, 2),
                  known_findings=[k["id"] for k, _ in knowns.values()], max_terms=int(tot.get("maxterms", 0))))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if A.verbose:
        for r in sorted(results, key=lambda r: -r["wall"]):
            s = r["summary"]
            print("%6.1fs paths=%s skip=%s q=%s und=%s unm=%s cands=%d repro=%d obsx=%d err=%s z3=%.1f  %s %s %s" % (r["wall"], s.get("paths"), s.get("skipped"), s.get("queries"), s.get("undecided"), s.get("unmodelled"), r["cands"], r["cand_repro"], r["obs_mismatch"], s.get("errors"), s.get("solver_s", 0), r["cfg"]["harness"], " ".join(argstr(r["args"])), "; ".join(sorted(set(r["notes"])))[:200]))
            for v in r["viol"][:1]: print("        !! %s  [%s %s] <- %s" % (v[0], v[2], v[3], v[1][:200]))
        print("build %.1fs total %.1fs configs %d complete %d paths %s queries %s" % (tb, time.time() - t0, len(results), len(complete), tot.get("paths"), tot.get("queries")))
    for n in notes: print("NOTE", n)
    for k, n in knowns.values(): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if viols:
        d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
        byc = {}
        for v in viols: byc.setdefault((v[0]["cfg"]["harness"], json.dumps(v[0]["args"], sort_keys=True)), v)
        for i, ((h, _), (r, o, l, kind, m)) in enumerate(list(byc.items())[:5]):
            p = os.path.join(d, "%s-%d.json" % (prop, i))
            with open(p, "w") as f: json.dump(dict(property=prop, harness=h, args=r["args"], input=l, verdict=o, found_by=kind, message=m), f, indent=1)
            print("%s %s: real build says %s (solver: %s %s)" % (h, " ".join(argstr(r["args"])), o, kind, m))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    ran = [r for r in results if r["summary"].get("paths") or r["replayed"]]
    if not ran or len(runnable) < len(cfgs):
        # nothing (or not everything) could be encoded: saying "held" would be vacuous
        print("property %s: NO ANSWER, %d of %d configurations could be built and run (see NOTE lines)" % (prop, len(ran), len(cfgs)))
        return 2
    print("property %s: held on everything explored (%d configurations, %d decided completely, %d paths, %d solver queries, %d replays on the real build)" % (prop, len(results), len(complete), tot.get("paths", 0), tot.get("queries", 0), ev["coverage"]["traces_validated_against_impl"]))
    return 0

if __name__ == "__main__": sys.exit(main())
