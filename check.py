#!/usr/bin/env python3-vt
"""check.py <property> [--replay FILE]

Decides one property: verifies every function contract of the property (and of
the contracts they rely on) against the current source of /repo, and runs the
property's harness against the real code compiled from the same tree (bounded
stand-in for what is outside the verifier's reach, and replay of failures)."""
import json
import os
import re
import select
import signal
import subprocess
import sys
import time
import traceback

if os.environ.get("PYTHONHASHSEED") != "0":
    # the order of generated facts, hence solver behaviour, must not vary from run to run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "cyvc"), os.path.join(HERE, "contracts")]
sys.setrecursionlimit(20000)

import build  # noqa: E402

JOBS = int(os.environ.get("CYVC_JOBS", "8"))


# ------------------------------------------------------------ verification --
def verify_task(prog, D, con, cfg, prop, tier):
    """runs in a forked child: proof mode, then exact (unrolled) mode"""
    import engine as E
    out = {"qn": con.qn, "n": con.nparams, "mode": "proof", "runs": []}
    quick = tier == "quick"

    def one(mode, budget, unroll, vc):
        c = cfg() if cfg else E.Config()
        c.unroll, c.vc_timeout = unroll, vc
        r = E.run_verify(prog, D, con, c, mode, budget, prop=prop)
        bad = [o for o in r.obls if o.status not in ("proved", "skipped")]
        return r, {
            "mode": mode, "status": r.status(), "error": r.error, "key": r.key, "loc": r.loc,
            "obligations": [[o.name, o.kind, o.status, round(o.time, 3), o.line] for o in r.obls if o.status != "skipped"],
            "paths": r.paths, "solver_s": round(r.solver_time, 3), "inlined": sorted(r.inlined), "used": sorted(r.used),
            "assumed": sorted(r.assumed), "bound": unroll if r.hit_bound else None,
            "bad": [{"name": o.name, "line": o.line, "status": o.status, "exact": o.exact, "reason": o.reason,
                     "model": getattr(o, "model_text", ""), "hints": [x for _, x in (o.model or [])][:40]} for o in bad][:12]}

    modes = con.modes or ("inv", "exact")
    if "inv" in modes:
        r, d = one("inv", con.budget or (60 if quick else 180), 3, 15000 if quick else 60000)
        out["runs"].append(d)
        if d["status"] == "proved": return out
    if "exact" in modes:
        r, d = one("exact", con.budget or (60 if quick else 300), (con.unroll or 2) if quick else (con.unroll or 2) + 1, 8000)
        out["runs"].append(d)
    return out


def prove_lemma(qn, hyps, goal):
    """a closed lemma the contracts use"""
    import z3
    t = time.time()
    s = z3.Solver()
    s.set("timeout", 60000)
    s.add(*hyps)
    s.add(z3.Not(goal))
    r = s.check()
    st = "proved" if r == z3.unsat else "refuted" if r == z3.sat else "unknown"
    dt = round(time.time() - t, 3)
    return {"runs": [{"mode": "lemma", "status": st if st == "proved" else "unknown", "error": None if st == "proved" else "lemma " + st, "key": qn, "loc": None,
                      "obligations": [[qn, "lemma", st, dt, 0]], "paths": 1, "solver_s": dt, "inlined": [], "used": [], "assumed": [], "bound": None, "bad": []}]}


def run_tasks(tasks, limit, jobs=JOBS):
    """fork one process per task, at most `jobs` at a time, hard wall limit"""
    res = [None] * len(tasks)
    live = {}
    nxt = 0
    while nxt < len(tasks) or live:
        while nxt < len(tasks) and len(live) < jobs:
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(rd)
                    os.setpgid(0, 0)
                    try: r = tasks[nxt]()
                    except Exception:
                        r = {"crash": traceback.format_exc()[-2000:]}
                    with os.fdopen(wr, "w") as f: json.dump(r, f)
                finally: os._exit(0)
            os.close(wr)
            live[rd] = [nxt, pid, time.time(), b""]
            nxt += 1
        rs, _, _ = select.select(list(live), [], [], 0.5)
        for fd in rs:
            data = os.read(fd, 1 << 20)
            if data: live[fd][3] += data
            else:
                i, pid, t0, buf = live.pop(fd)
                os.close(fd)
                os.waitpid(pid, 0)
                try: res[i] = json.loads(buf)
                except ValueError: res[i] = {"crash": "no result"}
        for fd in list(live):
            i, pid, t0, buf = live[fd]
            if time.time() - t0 > limit:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                live.pop(fd)
                res[i] = {"crash": "wall limit of %d s reached" % limit, "timeout": True}
    return res


def verify_property(spec, prop, tier, log):
    import engine as E
    import importlib
    t0 = time.time()
    files = build.dump(spec["srcs"])
    prog = E.Program()
    for f in files: prog.load(f)
    D, allc, lem = {}, [], []
    cfg = None
    for m in spec["contracts"]:
        mod = importlib.import_module(m)
        cfg = getattr(mod, "CFG", cfg)
        if hasattr(mod, "lemmas"): lem += [("lemma " + n, h, g) for n, h, g in mod.lemmas()]
        for c in mod.build():
            if any(x.qn == c.qn and x.nparams == c.nparams and x.sig == c.sig and x.only_verify == c.only_verify for x in D.get(c.qn, [])): continue
            D.setdefault(c.qn, []).append(c)
            allc.append(c)
    log("dump+load %.1fs" % (time.time() - t0))
    done, results = set(), []
    for (n, h, g), r in zip(lem, run_tasks([(lambda x=x: prove_lemma(*x)) for x in lem], 90)):
        r.update(role="lemma", qn=n, n=0, sig=None)
        results.append(r)
    todo = [c for c in allc if not c.assumed and c.prop and prop in c.prop]
    role = {id(c): "property" for c in todo}
    limit = 150 if tier == "quick" else 900
    while todo:
        for c in todo: done.add(id(c))
        rs = run_tasks([(lambda c=c: verify_task(prog, D, c, cfg, prop, tier)) for c in todo], limit)
        nxt = []
        for c, r in zip(todo, rs):
            r["role"] = role[id(c)]
            r["qn"], r["n"], r["sig"] = c.qn, c.nparams, c.sig
            results.append(r)
            for run in r.get("runs", []):
                for u in run["used"]:
                    qn, _, n = u.partition("/")
                    for x in D.get(qn, []):
                        if id(x) in done or x.assumed or id(x) in [id(y) for y in nxt]: continue
                        if n and x.nparams is not None and str(x.nparams) != n.split("#")[0]: continue
                        role[id(x)] = "support"
                        nxt.append(x)
        todo = nxt
    log("verified %d contracts, %.1fs" % (len(results), time.time() - t0))
    return results


def classify(r):
    """-> (label, failing run or None)"""
    if "crash" in r: return ("undecided", None)
    runs = r["runs"]
    for run in runs:
        if run["status"] == "proved": return ("proved", None)
    for run in runs:
        if run["mode"] == "exact" and run["status"] == "refuted": return ("refuted", run)
    last = runs[-1]
    if last["mode"] == "exact" and last["status"] == "bounded": return ("bounded", None)
    for run in runs:
        if run["status"] == "refuted" and any(b["status"] == "refuted" and b["exact"] for b in run["bad"]) and \
                last["status"] in ("unsupported", "unknown"):
            return ("refuted", run)
    return ("undecided", None)


# ----------------------------------------------------------------- harness --
def run_harness(name, exe, seed, secs, prop, extra=(), hang=None):
    """-> dict(cases, kinds, samples, fails=[{section, case, what}])"""
    scratch = os.path.join(build.BUILD, "scratch", "%s-%d-%d" % (name, os.getpid(), int(time.time() * 1e6)))
    os.makedirs(scratch, exist_ok=True)
    state = os.path.join(scratch, "state")
    out = {"cases": 0, "kinds": 0, "samples": [], "fails": [], "error": None, "kindlist": []}
    hang = hang or secs + 45
    try:
        p = subprocess.run([exe, "--seed", str(seed), "--time", str(secs), "--state", state] + list(extra), cwd=scratch,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=hang)
        txt, rc, err = p.stdout, p.returncode, p.stderr
    except subprocess.TimeoutExpired as ex:
        txt = ex.stdout.decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")
        rc, err = "hang", ""
    lines = txt.split("\n")
    for i, l in enumerate(lines):
        if l.startswith("FAIL "):
            _, sec, case, what = (l.split(" ", 3) + [""])[:4]
            tr = lines[i + 1] if i + 1 < len(lines) and lines[i + 1].startswith("  trace") else ""
            out["fails"].append({"section": sec, "case": int(case), "what": what, "trace": tr.strip()})
        elif l.startswith("SAMPLE "): out["samples"].append(l[7:])
        elif l.startswith("CASES "): out["cases"] += int(l[6:])
        elif l.startswith("KIND "): out["kindlist"].append(l[5:])
    if "DONE" not in lines:
        try: sec, case = open(state, "rb").read().split(b"\0")[0].decode().split()
        except Exception: sec, case = None, None
        if sec is None:
            out["error"] = "harness ended with %s before any case: %s" % (rc, err[-500:])
        else:
            out["fails"].append({"section": sec, "case": int(case), "trace": err[-1500:],
                                 "what": "the code under test %s" % ("did not return" if rc == "hang" else "crashed (exit status %s)" % rc)})
    subprocess.run(["rm", "-rf", scratch])
    return out


def merge(a, b):
    a["cases"] += b["cases"]
    a["samples"] = (a["samples"] + b["samples"])[:8]
    a["kindlist"] = sorted(set(a["kindlist"]) | set(b["kindlist"]))
    secs = {f["section"] for f in a["fails"]}
    a["fails"] += [f for f in b["fails"] if f["section"] not in secs]
    a["error"] = a["error"] or b["error"]
    return a


def run_harness_parallel(name, exe, seed, secs, prop, jobs, extra=()):
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(jobs) as ex:
        rs = list(ex.map(lambda j: run_harness(name, exe, seed * 64 + j, secs, prop, extra), range(jobs)))
    r = rs[0]
    for x in rs[1:]: merge(r, x)
    return r


# -------------------------------------------------------------------- main --
def known_findings(prop):
    p = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                d = json.loads(l)
                if d["property"] == prop and d["status"] == "known": out.append(d)
    return out


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import registry
    spec = registry.PROPS[prop]
    log = (lambda *a: print("#", *a, file=sys.stderr)) if "-q" not in sys.argv else (lambda *a: None)
    build.sync_tree()
    if "--replay" in sys.argv:
        d = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        exe = build.build_harness(d["harness"], build.build_lib())
        f = d["failure"]
        r = run_harness(d["harness"], exe, seed, 60, prop, ["--only", f["section"], "--case", str(f["case"])])
        for x in r["fails"]: print("REPRODUCED %s case %s: %s\n%s" % (x["section"], x["case"], x["what"], x["trace"]))
        return 1 if r["fails"] else 0

    exes, berr, verr = build.build_all(spec["harness"], spec["srcs"] if spec["contracts"] else [])
    log("built %.1fs" % (time.time() - t0))
    if berr or verr:
        # the tree (or the interface the contracts need) does not compile: no answer
        print("ERROR building: %s" % (berr or verr))
        return 2
    # harness runs first (short, all cores), then the proofs
    H = None
    hsecs = spec.get("quick_s", 8) if tier == "quick" else spec.get("thorough_s", 240)
    for h, exe in exes:
        r = run_harness_parallel(h, exe, seed, hsecs, prop, JOBS)
        for f in r["fails"]: f["harness"] = h
        H = r if H is None else merge(H, r)
    log("harness %s cases %.1fs" % (H and H["cases"], time.time() - t0))
    vres = verify_property(spec, prop, tier, log) if spec["contracts"] else []

    known = known_findings(prop)
    violations, notes = [], []
    rep_dir = os.path.join(HERE, "replay")
    os.makedirs(rep_dir, exist_ok=True)

    def replay(name, obj):
        p = os.path.join(rep_dir, "%s-%s.json" % (prop, re.sub(r"\W+", "_", name)[:60]))
        json.dump(obj, open(p, "w"), indent=1)
        return p

    if H and H["error"]: notes.append(H["error"])
    for f in (H["fails"] if H else []):
        p = replay("harness_" + f["section"], {"property": prop, "kind": "failing input", "harness": f["harness"], "failure": f,
                                               "how": "python3-vt check.py %s --replay <this file>" % prop})
        violations.append((p, "", "%s case %s: %s" % (f["section"], f["case"], f["what"])))
    labels = {}
    refuted = []
    for r in vres:
        lab, run = classify(r)
        r["label"] = lab
        labels.setdefault(lab, []).append(r)
        if lab == "refuted": refuted.append((r, run))
    if refuted:
        hints = []
        for r, run in refuted:
            for b in run["bad"]:
                for x in b["hints"]:
                    try:
                        from fractions import Fraction
                        v = float(Fraction(x))
                        if abs(v) < 1e9 and v not in hints: hints.append(v)
                    except (ValueError, ZeroDivisionError, OverflowError): pass
        extra = []
        for v in hints[:60]: extra += ["--hint", repr(v)]
        found = {(f["harness"], f["section"]) for f in (H["fails"] if H else [])}
        if not found:
            for h, exe in exes:
                rr = run_harness_parallel(h, exe, seed + 777, 40 if tier == "quick" else 200, prop, JOBS, extra)
                for f in rr["fails"]:
                    f["harness"] = h
                    f["extra"] = extra
                    found.add((h, f["section"]))
                    p = replay("harness_" + f["section"], {"property": prop, "kind": "failing input", "harness": h, "failure": f})
                    violations.append((p, "", "%s case %s: %s" % (f["section"], f["case"], f["what"])))
                H["cases"] += rr["cases"]
        for r, run in refuted:
            b = [x for x in run["bad"] if x["status"] == "refuted"][0]
            p = replay("obligation_" + b["name"], {"property": prop, "kind": "failed obligation", "function": run["key"], "where": run["loc"],
                                                   "obligation": b["name"], "line": b["line"], "mode": run["mode"],
                                                   "verifier_output": run["bad"], "failing_inputs_found": sorted(map(str, found))})
            if found: notes.append("failed obligation %s (replayed above)" % b["name"])
            else: violations.append((p, " no-failing-input-found", "obligation %s of %s refuted" % (b["name"], run["key"])))

    # evidence
    nobl = sum(len(run["obligations"]) for r in vres for run in r.get("runs", [])[:1])
    proved = sum(1 for r in vres for run in r.get("runs", [])[:1] for o in run["obligations"] if o[2] == "proved")
    fns = []
    for r in vres:
        run = (r.get("runs") or [{}])[-1]
        best = [x for x in r.get("runs", []) if x["status"] == "proved"]
        run = best[0] if best else run
        loc = run.get("loc") or {}
        fns.append({"function": r["qn"], "label": r["label"], "role": r["role"], "file": (loc.get("f") or "").replace(build.SRC + "/", "src/"), "line": loc.get("l"),
                    "obligations": len(run.get("obligations", [])), "solver_s": run.get("solver_s"), "mode": run.get("mode"),
                    "bound": run.get("bound"), "note": run.get("error") or r.get("crash")})
    assumed = sorted({a for r in vres for run in r.get("runs", []) for a in run["assumed"]})
    level = spec.get("level", "proof")
    cov = {"obligations": nobl, "discharged": proved, "checker_cmd": "python3-vt check.py %s" % prop,
           "trusted_base": ["cyvc (astdump.cpp, engine.py, stdmodel.py)", "clang 18 AST", "z3 %s" % z3v()] + ["assumed contract: " + a for a in assumed],
           "functions_under_contract": len([r for r in vres if r["role"] != "lemma"]),
           "functions_proved": len([r for r in labels.get("proved", []) if r["role"] != "lemma"]), "lemmas": len([r for r in vres if r["role"] == "lemma"]),
           "functions_bounded": [f for f in fns if f["label"] == "bounded"],
           "functions_undecided": [f for f in fns if f["label"] == "undecided"],
           "functions": fns, "solver_time_s": round(sum(run["solver_s"] for r in vres for run in r.get("runs", [])), 2),
           "inlined": sorted({a for r in vres for run in r.get("runs", []) for a in run["inlined"]}),
           "evaluations": H["cases"] if H else 0, "distinct_nontrivial": len(H["kindlist"]) if H else 0,
           "rule": "bounded stand-in: cases generated from (VERIF_SEED, index); distinct by behaviour class reported by the harness",
           "samples": H["samples"] if H else []}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": registry.COMMON_ASSUMPTIONS + spec.get("assumptions", []) + ["assumed contract: " + a for a in assumed],
          "wall_s": round(time.time() - t0, 1), "violations": len(violations), "notes": notes}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d functions under contract, %d proved, %d bounded, %d undecided; %d/%d obligations discharged; %d harness cases; %.0fs" % (
        prop, cov["functions_under_contract"], cov["functions_proved"], len(labels.get("bounded", [])), len(labels.get("undecided", [])), proved, nobl,
        cov["evaluations"], time.time() - t0))
    for f in fns:
        if f["label"] != "proved": print("  %s: %s %s" % (f["label"], f["function"], f["note"] or ""))
    for k in known: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if spec["contracts"] and nobl == 0 and not violations:
        print("ERROR: no obligations were generated")
        return 2
    if H and H["error"] and not violations:
        print("ERROR: " + H["error"])
        return 2
    for p, suffix, what in violations:
        print("  " + what)
        print("VIOLATION property=%s replay=%s%s" % (prop, p, suffix))
    return 1 if violations else 0


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
