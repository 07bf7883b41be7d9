#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's current tree.

Builds the property's harness from the current sources, lets the engine execute it symbolically, replays every
counterexample concretely against the same code and reports those that reproduce.
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from properties import PROPS

V = build.V
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def known_findings():
    """known_findings.txt: 'finding: property=<id> scenario=<s> label=<regex> ; text' / 'fixed: ...'"""
    out = []
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+scenario=(\S+)\s+label=/(.*?)/\s*(?:where=\{(.*?)\})?\s*;\s*(.*)", l)
            if m:
                out.append({"property": m[1], "scenario": m[2], "label": m[3], "where": m[4], "text": m[5].strip()})
    return out


def model_dict(text):
    d = {}
    for t in text.split():
        if "=" in t:
            k, v = t.split("=", 1)
            try:
                d[k] = eval(v, {}) if "/" in v else float(v)
            except Exception:
                d[k] = v
    return d


def match_known(kf, prop, scen, label, model):
    for k in kf:
        if k["property"] == prop and k["scenario"] == scen and re.search(k["label"], label):
            if not k["where"]:
                return k
            try:
                if eval(k["where"], {}, {"m": model_dict(model)}):
                    return k
            except Exception:
                pass
    return None


def replay(exe, scen, model, path):
    with open(path, "w") as f:
        f.write(model + "\n")
    try:
        r = subprocess.run([exe, "--replay", path, "--scenario", scen], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=150)
        return r.returncode, r.stdout.decode(errors="replace")[-4000:]
    except subprocess.TimeoutExpired:
        return 4, "timeout"


def run_prop(pid):
    t0 = time.time()
    P = PROPS[pid]
    thorough = TIER == "thorough"
    budget_total = P.get("thorough_s", 1500) if thorough else P.get("quick_s", 60)
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": P.get("level", "model_checking")}
    results = []
    exes = []
    tb = time.time()
    for h in P["harness"]:
        srcs = [V + "/harness/" + h + ".cpp"]
        os.makedirs(build.B + "/bin", exist_ok=True)
        exe = build.link(srcs, build.B + "/bin/" + h)
        exes.append((h, exe, srcs))
    build_s = time.time() - tb
    only = P.get("scenarios")
    jobs = []
    for h, exe, srcs in exes:
        ls = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True).stdout.split("\n")
        names = [l.split()[0] for l in ls if l.strip()]
        for n in names:
            if n.startswith("T_") and not thorough:
                continue
            if only and not any(re.fullmatch(o, n) for o in only):
                continue
            jobs.append((h, exe, n))
    if not jobs:
        raise build.BuildError("no scenarios for " + pid)
    # two scenarios at a time, four workers each
    par = 2 if len(jobs) > 1 else 1
    workers = max(1, build.JOBS // par)
    deadline = time.time() + budget_total
    os.makedirs(V + "/.build/run", exist_ok=True)

    def one(j):
        h, exe, n = j
        left = len(jobs) - len(results)
        share = max(5.0, (deadline - time.time()) * par / max(left, par) * 2)
        share = min(share, max(5.0, deadline - time.time()))
        out = V + "/.build/run/%s-%s.json" % (pid, n)
        if os.path.exists(out):
            os.unlink(out)
        cmd = [exe, "--scenario", n, "--budget", "%.1f" % share, "--workers", str(workers), "--out", out,
               "--timeout", str(P.get("query_ms", 20000 if thorough else 5000)), "--path-timeout", str(P.get("path_s", 300 if thorough else 40))]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=share + 400)
        try:
            d = json.loads(open(out).read(), strict=False)
        except Exception:
            d = {"scenario": n, "crash": r.stdout.decode(errors="replace")[-2000:], "rc": r.returncode}
        d["_exe"] = exe
        d["_harness"] = h
        results.append(d)
        return d
    with ThreadPoolExecutor(par) as ex:
        list(ex.map(one, jobs))
    kf = known_findings()
    rdir = V + "/.build/replay"
    os.makedirs(rdir, exist_ok=True)
    violations, unreproduced, known_hits, problems = [], [], {}, []
    validated = disagree = 0
    for d in results:
        n = d["scenario"]
        if "crash" in d:
            problems.append("%s: engine produced no report (rc %s): %s" % (n, d.get("rc"), d["crash"][-300:]))
            continue
        seen = {}
        for v in d["violations"]:
            k = match_known(kf, pid, n, v["label"], v["model"])
            if k:
                known_hits[k["text"]] = known_hits.get(k["text"], 0) + 1
                continue
            if seen.get(v["label"], 0) >= 4 or sum(seen.values()) > 12:
                continue
            seen[v["label"]] = seen.get(v["label"], 0) + 1
            path = "%s/%s-%s-%d.txt" % (rdir, pid, n, len(violations) + len(unreproduced))
            rc, out = replay(d["_exe"], n, v["model"], path)
            rec = {"scenario": n, "label": v["label"], "model": v["model"], "notes": v["notes"], "replay": path, "replay_rc": rc}
            if rc == 1:
                with open(path + ".log", "w") as f:
                    f.write("property %s scenario %s label %s\nreplay: %s --replay %s --scenario %s\n%s" % (pid, n, v["label"], d["_exe"], path, n, out))
                violations.append(rec)
            else:
                unreproduced.append(rec)
        if d["errors"]:
            problems.append("%s: %s" % (n, "; ".join(d["errors_text"][:3])))
        # concrete replays of path witnesses
        for i, w in enumerate(d.get("witnesses", [])[:3]):
            if d["violations"]:
                break
            rc, out = replay(d["_exe"], n, w, "%s/w-%s-%s-%d.txt" % (rdir, pid, n, i))
            if rc == 0:
                validated += 1
            else:
                disagree += 1
                if os.environ.get("VERIF_DEBUG"):
                    print("witness disagreement", n, w, rc, out[-500:])
    good = [d for d in results if "crash" not in d]
    # vacuity: every cover label written in the harness has to be reached
    want = set()
    for h, exe, srcs in exes:
        for s in srcs:
            text = open(s).read()
            for m in re.finditer(r'(SYM_SCENARIO(?:_IEEE|_PREP)?\((\w+)[^)]*\))|sym::cover\("([^"?][^"]*)"\)', text):
                if m[1]:
                    scen = m[2]
                elif m[3]:
                    want.add(m[3])
    got = {}
    for d in good:
        for k, c in d["covers"].items():
            got[k] = got.get(k, 0) + c
    if only or not thorough:
        ran = {d["scenario"] for d in good}
        want = {w for w in want if scope_ok(w, exes, ran)}
    missing = sorted(want - set(got))
    incomplete = [d["scenario"] for d in good if d["left"] or d["timeouts"] or d["died"]]
    tot = lambda k: sum(d.get(k, 0) for d in good)
    lost = {}
    for d in good:
        for k, c in d["lost"].items():
            lost[k] = lost.get(k, 0) + c
    fns = sorted({f for d in good for f in d["functions"] if "precice::" in f or "precicec" in f})
    cov = {
        "states": tot("paths"), "transitions": tot("branches"), "traces_validated_against_impl": validated,
        "samples": [d["scenario"] + ": " + s for d in good for s in d["samples"][:2]][:20],
        "explanation": "states = feasible path-condition classes of the real code explored, transitions = symbolic branch decisions put to the solver or implied, "
                       "traces = path witnesses re-run concretely on the same code",
        "scenarios": {d["scenario"]: {"double_semantics": "exact reals" if d["mode"] == "real" else "IEEE-754", "paths": d["paths"], "exhausted": not (d["left"] or d["timeouts"] or d["died"]),
                                      "unexplored": d["left"], "timeouts": d["timeouts"], "checks": d["checks"], "wall_s": d["wall"]} for d in good},
        "queries_sat": tot("queries_sat"), "queries_unsat": tot("queries_unsat"), "queries_unknown": tot("queries_unknown"),
        "obligations": tot("checks"), "obligations_discharged_by_solver": tot("discharged"), "obligations_decided_on_concrete_values": tot("checks_concrete"), "obligations_unknown": tot("check_unknown"),
        "solver_s": round(tot("solver_s"), 2), "max_query_s": max([d["max_query_s"] for d in good] or [0]),
        "float_operations_symbolic": tot("float_ops"), "float_operations_proved_bit_exact": tot("float_ops_bitexact"),
        "encoding_validations": tot("operand_validations"), "encoding_mismatches": tot("operand_mismatches"),
        "witness_replays_in_double_arithmetic_that_disagreed": disagree,
        "concretisations": tot("concretisations"), "lost_symbolic_values": lost,
        "functions_encoded_count": len(fns), "functions_encoded": fns[:400],
        "cover_labels_reached": got, "cover_labels_missing": missing,
        "exhaustive": not incomplete and not tot("unknown_branches") and not tot("check_unknown") and not lost,
        "incomplete_scenarios": incomplete, "unreproduced_counterexamples": unreproduced[:10], "build_s": round(build_s, 1), "bounds": P.get("bounds", ""),
    }
    if cov["samples"] == []:
        cov["samples"] = ["none"]
    # a premise that became unreachable in a completely explored space is a violation of the liveness half
    if missing and not violations and not incomplete and not problems and not known_hits:
        path = "%s/%s-unreachable.txt" % (rdir, pid)
        with open(path, "w") as f:
            f.write("unreachable although every path was explored: %s\n" % ", ".join(missing))
        violations.append({"scenario": "-", "label": "unreachable: " + ", ".join(missing), "model": "", "notes": "", "replay": path, "replay_rc": 0})
    ev["coverage"] = cov
    ev["assumptions"] = P.get("assumptions", []) + COMMON_ASSUMPTIONS
    ev["wall_s"] = round(time.time() - t0, 1)
    ev["violations"] = len(violations)
    ev["violation_list"] = violations
    ev["problems"] = problems
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(V + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
    for text, c in known_hits.items():
        print("KNOWN-FINDING: property=%s %s (%d paths)" % (pid, text, c))
    print("%s %s: %d scenarios, %d paths, %d branch decisions, %d obligations (%d by solver), %d queries, solver %.1f s, build %.1f s, total %.1f s%s" % (
        pid, TIER, len(good), cov["states"], cov["transitions"], cov["obligations"], cov["obligations_discharged_by_solver"],
        cov["queries_sat"] + cov["queries_unsat"] + cov["queries_unknown"], cov["solver_s"], build_s, ev["wall_s"],
        "" if not incomplete else " INCOMPLETE: " + ",".join(incomplete)))
    if missing:
        print("cover labels not reached: " + ", ".join(missing))
    if unreproduced:
        print("counterexamples that did not reproduce concretely (not reported): %d; first: %s / %s" % (len(unreproduced), unreproduced[0]["scenario"], unreproduced[0]["label"]))
    for p in problems:
        print("PROBLEM " + p)
    if violations:
        for v in violations[:5]:
            print("  %s: %s  [%s] %s" % (v["scenario"], v["label"], v["model"], v["notes"]))
        print("VIOLATION property=%s replay=%s" % (pid, violations[0]["replay"]))
        return 1
    if problems or not good:
        return 2
    if missing and not incomplete:
        return 2
    return 0


def scope_ok(label, exes, ran):
    """is the label written inside a scenario that ran (helpers shared by scenarios count as in scope)?"""
    for h, exe, srcs in exes:
        for s in srcs:
            cur = None
            for line in open(s):
                m = re.match(r"SYM_SCENARIO(?:_IEEE|_PREP)?\((\w+)[^)]*\)", line)
                if m:
                    cur = m[1]
                elif re.match(r"^(static|template|inline|struct|namespace|void|double)\b", line):
                    cur = None
                if 'sym::cover("%s")' % label in line:
                    return cur is None or cur in ran
    return True


COMMON_ASSUMPTIONS = [
    "doubles are treated as exact rationals in scenarios marked 'exact reals'; rounding errors are outside those scenarios (float_operations_proved_bit_exact counts the operations for which rounding provably cannot occur)",
    "log messages and profiling have empty bodies; TCP transport is an in-memory FIFO byte stream; MPI, PETSc, Python, Ginkgo and Kokkos back ends are not compiled",
    "clang 18 -O1 LLVM IR of the project's sources with its assertions enabled; memory allocation never fails",
]

if __name__ == "__main__":
    pid = sys.argv[1]
    try:
        rc = run_prop(pid)
    except build.BuildError as e:
        print("BUILD FAILED: " + str(e)[-3000:])
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
