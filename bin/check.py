#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's current tree."""
import os, sys, json, time, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
from lib import *
import specs

def known_findings():
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l.strip())
            if m: out[(m.group(1), m.group(2))] = m.group(3)
    return out

PYV = "python3-vt" if shutil.which("python3-vt") else "/opt/veriftools/pyvenv/bin/python3"
def python_runs(pid, tier, spec, cov, viol, problems, rd, deadline):
    """The repository's Python code under bin/pysym.py; the native structure layout comes from the compiler."""
    d = os.path.join(BUILD, "h", pid + "_py"); os.makedirs(d, exist_ok=True); src = d + "/layout.cpp"
    open(src, "w").write('#include <cstddef>\n#include <cstdio>\n#include "BaseListener.hpp"\nusing Centaurus::SymbolEntry;\nint main(){ printf("{\\"id\\":[%zu,%zu],\\"start\\":[%zu,%zu],\\"end\\":[%zu,%zu]}",offsetof(SymbolEntry,id),sizeof(SymbolEntry::id),offsetof(SymbolEntry,start),sizeof(SymbolEntry::start),offsetof(SymbolEntry,end),sizeof(SymbolEntry::end)); }\n')
    try: sh(["clang++"] + CXXFLAGS + ["-w", "-I" + os.path.join(REPO, "src", "core"), src, "-o", d + "/layout"]); layout = sh([d + "/layout"])
    except CheckError as e: problems.append("layout: %s" % e); return
    script = os.path.join(VERIF, "bin", spec["python_runs"]); out = d + "/out.json"
    if os.path.exists(out): os.remove(out)
    env = dict(os.environ, CENTAURUS_REPO=REPO, PYTHONDONTWRITEBYTECODE="1"); left = max(60, deadline - time.time()); base = [PYV, script, "--tier", tier, "--layout", layout]
    try: r = subprocess.run(base + ["--out", out, "--limit", str(int(left / 4))], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=left + 60)
    except subprocess.TimeoutExpired: problems.append("the Python runs took too long"); return
    if r.returncode != 0 or not os.path.exists(out): problems.append("the Python runs failed: %s" % r.stderr[-1500:]); return
    def rep(name, model, n):
        mf = os.path.join(rd, "%s_%s_%s.json" % (pid, name, n)); json.dump(dict(run=name, model=model), open(mf, "w"))
        try: q = subprocess.run(base + ["--replay", mf], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60); return mf, q.returncode, q.stdout + q.stderr[-300:]
        except subprocess.TimeoutExpired: return mf, 1, "does not terminate"
    for o in json.load(open(out)):
        st = o["stats"]; cov["states"] += st["forks"] + 1; cov["transitions"] += st["queries"]; cov["paths"] += st["paths"]; cov["queries"] += st["queries"]; cov["queries_sat"] += st["sat"]; cov["queries_unsat"] += st["unsat"]; cov["solver_s"] += st["solver_s"]; cov["assertion_instances"] += st["asserts"]; cov["assertion_queries"] += st["assert_queries"]
        cov["runs"].append(dict(harness=o["run"], case=0, what=o["what"], paths=st["paths"], queries=st["queries"], wall_s=o["wall_s"], infeasible_assumption_paths=st["infeasible"], reach=o["reached"])); fine = False
        for k, v in enumerate(o["violations"]):
            mf, rc, so = rep(o["run"], v["model"], k)
            if rc != 1: problems.append("counterexample did not replay (%s): %s %s" % (v["msg"], mf, so[-200:])); continue
            rp = mf[:-5] + ".sh"; open(rp, "w").write("#!/bin/bash\n# %s\nCENTAURUS_REPO='%s' exec %s\n" % (v["msg"], REPO, " ".join("'%s'" % x for x in base + ["--replay", mf]))); os.chmod(rp, 0o755)
            viol.append((v["msg"], rp, None, 0, dict(model=" ".join("%s=%s" % tuple(x) for x in v["model"])), None)); fine = True
        if not o["complete"] and not fine: problems.append("time limit reached in %s" % o["run"])
        if o["complete"] and not o["violations"] and (not o["reached"].get("reduced") or not st["asserts"]): problems.append("vacuity in %s" % o["run"])
        for k, x in enumerate(o["samples"][:3]):
            mf, rc, so = rep(o["run"], x["model"], "s%d" % k)
            if rc != 0 or ("OBS %s" % x["obs"]) not in so: problems.append("a sampled path does not replay on plain values: %s %s" % (mf, so[-300:])); break
            cov["traces_validated_against_impl"] += 1
            if len(cov["samples"]) < 9: cov["samples"].append(dict(harness=o["run"], case=0, assignment=" ".join("%s=%s" % tuple(y) for y in x["model"])[:400], observed=str(x["obs"])))
    cov["python_functions_executed_symbolically"] = spec.get("python_functions", [])
def main():
    pid = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = specs.SPECS[pid]
    t0 = time.time()
    build_engine()
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], queries=0, queries_sat=0, queries_unsat=0, solver_s=0.0, assertion_instances=0,
               assertion_queries=0, paths=0, functions_encoded=[], runs=[], bounds=spec.get("bounds", ""), opaque_library_calls_with_symbolic_operands=[], known_findings_hit=[])
    viol, problems, known_hit = [], [], set()
    runs = spec["runs"](tier)
    kf = known_findings()
    rd = os.path.join(BUILD, "replay"); os.makedirs(rd, exist_ok=True)
    # front-end work in parallel, symbolic runs one after another (each uses all cores)
    built = {}
    distinct = {}
    for r in runs:
        ct, r["params"] = split_defines(r.get("defines", ())); key = (r["src"], tuple(ct), tuple(r.get("includes", ())))
        r["exe"] = next((n for n, d in distinct.items() if d["key"] == key), r["name"]); r["key"], r["ct"] = key, ct
        distinct.setdefault(r["exe"], r)
    with cf.ThreadPoolExecutor(3) as ex:
        fut = {n: ex.submit(build_harness, pid + "_" + n, r["src"], r["ct"], r.get("extra_sources", lambda: None)(), r.get("includes", ())) for n, r in distinct.items()}
        try:
            for n in fut: built[n] = fut[n].result()
        except CheckError as e:
            print("ERROR build: %s" % e); return 2
    fnset = set()
    deadline = t0 + (840 if tier == "quick" else 6 * 3600)
    for i, r in enumerate(runs):
        symb, nat, bt = built[r["exe"]]; pr = r["params"]
        case = r.get("case", 0)
        out = os.path.join(BUILD, "h", pid + "_" + r["exe"], "out%d.json" % i)
        tmo = min(r.get("timeout", 300 if tier == "quick" else 7200), max(10, deadline - time.time()))
        try: o = run_symbolic(symb, out, tier, case, int(tmo), r.get("args", ()), params=pr)
        except CheckError as e: problems.append(str(e)); continue
        cov["states"] += o["forks"] + 1; cov["transitions"] += o["branches"] + o["concretisations"]; cov["paths"] += o["paths"]
        cov["queries"] += o["queries"]; cov["queries_sat"] += o["sat"]; cov["queries_unsat"] += o["unsat"]; cov["solver_s"] += o["solver_s"]
        cov["assertion_instances"] += o["asserts"]; cov["assertion_queries"] += o["assert_queries"]
        fnset.update(o["functions"])
        for x in o["externals"]:
            if x not in cov["opaque_library_calls_with_symbolic_operands"]: cov["opaque_library_calls_with_symbolic_operands"].append(x)
        cov["runs"].append(dict(harness=r["name"], case=case, what=r.get("what", ""), paths=o["paths"], queries=o["queries"], wall_s=o["wall_s"], infeasible_assumption_paths=o["infeasible"], max_fork_depth=o["maxdepth"], reach={k: v[0] for k, v in o["reach"].items()}))
        confirmed = False
        for v in o["violations"]:
            mf = os.path.join(rd, "%s_%s_%d_%d.model" % (pid, r["name"], i, o["violations"].index(v)))
            open(mf, "w").write(v["model"])
            if v["kind"] == 4: problems.append("inconclusive in %s: %s" % (r["name"], v["msg"])); continue
            rc, so, se = replay(nat, mf, tier, case, params=pr)
            if v["kind"] == 5:
                k = v["msg"].split("|")[0]
                if rc == 5:
                    if (pid, k) in kf: known_hit.add(k); cov["known_findings_hit"].append(dict(id=k, model=v["model"]))
                    else: viol.append((v["msg"] + " (not listed)", mf, nat, case, v, pr)); confirmed = True
                else: problems.append("known finding %s did not replay" % k)
                continue
            if rc in (0, 4, 5): problems.append("counterexample did not replay natively (%s; rc=%d %s): %s" % (v["msg"], rc, so.strip()[-200:], mf)); continue
            viol.append((v["msg"], mf, nat, case, v, pr)); confirmed = True
        if o["timeout"] and not confirmed: problems.append("time limit reached in %s after %d paths" % (r["name"], o["paths"]))
        if o["killed"] and not confirmed: problems.append("%d path processes were killed in %s" % (o["killed"], r["name"]))
        if not o["violations"] and not o["timeout"]:
            for k, n in o["reach"].items():
                if n[1] and not n[0]: problems.append("vacuity: %s never reached in %s" % (k, r["name"]))
            if o["asserts"] == 0: problems.append("vacuity: no assertion evaluated in %s" % r["name"])
        # encoding validation: sampled paths replayed natively
        sm = o["samples"]; step = max(1, len(sm) // 12)
        for s in sm[::step][:14]:
            mf = os.path.join(rd, "%s_%s_%d.sample" % (pid, r["name"], i)); open(mf, "w").write(s["model"])
            rc, so, se = replay(nat, mf, tier, case, obs=True, params=pr)
            got = "".join(l[4:] + "\n" for l in so.split("\n") if l.startswith("OBS "))
            if rc != 0 and rc != 5: problems.append("sampled path does not replay cleanly (rc=%d %s) in %s, model: %s" % (rc, so.strip()[-300:] + se[-300:], r["name"], s["model"].replace("\n", ";"))); break
            want = s["obs"]
            if len(want) < 6500 and got.split() != want.split(): problems.append("encoding mismatch against native run in %s: model %s\n want %s\n got %s" % (r["name"], s["model"].replace("\n", ";"), want[:600], got[:600])); break
            cov["traces_validated_against_impl"] += 1
            if len(cov["samples"]) < 6: cov["samples"].append(dict(harness=r["name"], case=case, assignment=" ".join(s["model"].split()), observed=" ".join(want.split())[:400]))
        if confirmed and not os.environ.get("SYMX_ALL"): break
    if spec.get("python_runs") and not (viol and not os.environ.get("SYMX_ALL")): python_runs(pid, tier, spec, cov, viol, problems, rd, deadline)
    fns = [f for f in demangle(sorted(fnset)) if "Centaurus::" in f and not f.startswith("std::") or f.startswith("Centaurus")]
    cov["functions_encoded"] = sorted(set(re.sub(r"\(anonymous namespace\)::", "", f)[:160] for f in fns))[:400]
    cov["ir_functions_executed_symbolically"] = len(fnset)
    for k in sorted(known_hit): print("KNOWN-FINDING: property=%s %s %s" % (pid, k, kf[(pid, k)]))
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=spec.get("assumptions", []) + specs.COMMON_ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(viol))
    cov["solver_s"] = round(cov["solver_s"], 2)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for msg, mf, nat, case, v, pr in viol:
        rp = mf if mf.endswith(".sh") else mf[:-6] + ".sh"
        if rp != mf: open(rp, "w").write("#!/bin/bash\n# %s\n%sASAN_OPTIONS='%s' exec '%s' --tier %s --case %d '%s'\n" % (msg.replace("\n", " "), "".join("SX_P_%s=%s " % kv for kv in sorted(pr.items())), ASAN["ASAN_OPTIONS"], nat, tier, case, mf)); os.chmod(rp, 0o755)
        print("  %s" % msg); print("  assignment: %s" % " ".join(v["model"].split()))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    for p in problems: print("PROBLEM: " + p)
    print("%s %s: paths=%d queries=%d solver=%.1fs validated=%d wall=%.1fs" % (pid, tier, cov["paths"], cov["queries"], cov["solver_s"], cov["traces_validated_against_impl"], time.time() - t0))
    if viol: return 1
    return 2 if problems else 0

if __name__ == "__main__":
    try: rc = main()
    except CheckError as e: print("ERROR: %s" % e); rc = 2
    sys.stdout.flush(); sys.exit(rc)
