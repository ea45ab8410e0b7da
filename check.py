#!/usr/bin/env python3-vt
"""Decides one property of barbarosa: check.py ID [quick|thorough] [--only HARNESS] [-v]

Compiles the harnesses of the property together with /repo's current sources to LLVM IR, executes every
harness symbolically, and has an SMT solver decide every assertion, panic and memory access on all paths.
A satisfiable one is replayed natively before it is reported.
"""
import argparse, glob, hashlib, json, multiprocessing as mp, os, re, shutil, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.setrecursionlimit(100000)
import plan

BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))


def log(*a):
    print(*a, flush=True)


def cargo(args, env_extra, cwd):
    env = dict(os.environ)
    env.update(env_extra)
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("RUSTC_WRAPPER", None)
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        log("\n".join(p.stdout.splitlines()[-40:]))
        raise SystemExit("BUILD-FAILED: cargo " + " ".join(args))
    return p.stdout


def flags(cfg, extra=""):
    return (extra + (" --cfg barbarosa_verif" if cfg.get("hooks") else "")).strip()


def build_ir(pid, cfg):
    target = os.path.join(BUILD, "ir-" + pid)
    for f in glob.glob(os.path.join(target, "release/deps/harness*.ll")):
        os.unlink(f)
    env = {"CARGO_TARGET_DIR": target, "RUSTFLAGS": flags(cfg, "-C no-vectorize-loops -C no-vectorize-slp --cfg verif_ir")}
    if "opt" in cfg:
        env["CARGO_PROFILE_RELEASE_OPT_LEVEL"] = str(cfg["opt"])
    if not cfg.get("debug_assertions", True):
        env["CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS"] = "false"
    # cargo does not see the emitted file as an output: make it compile the harness crate again
    os.utime(os.path.join(HERE, "harness/src/lib.rs"))
    cargo(["rustc", "--offline", "--release", "--lib", "--crate-type", "cdylib", "--features", pid.lower(), "--",
           "--emit=llvm-ir"], env, os.path.join(HERE, "harness"))
    r = glob.glob(os.path.join(target, "release/deps/harness*.ll"))
    if len(r) != 1:
        raise SystemExit("BUILD-FAILED: no LLVM IR")
    return r[0]


def build_replay(pid, cfg, release):
    target = os.path.join(BUILD, "replay-" + pid)
    env = {"CARGO_TARGET_DIR": target, "RUSTFLAGS": flags(cfg)}
    cargo(["build", "--offline", "--bin", "replay", "--features", pid.lower()] + (["--release"] if release else []), env,
          os.path.join(HERE, "harness"))
    return os.path.join(target, "release" if release else "debug", "replay")


# ---------------------------------------------------------------- one symbolic execution, in a worker process
def solve(e, guard, timeout):
    import z3
    if guard.c is not None:
        return ("sat", {}) if guard.c else ("unsat", None)
    g = e.to_z3(guard)
    s = z3.SolverFor("QF_FPBV" if e.fp else "QF_BV")
    s.set("timeout", int(timeout * 1000))
    s.add(g)
    r = s.check()
    if r == z3.sat:
        import sym
        return "sat", sym.model_env(s.model())
    return ("unsat", None) if r == z3.unsat else ("unknown", None)


def values(e, env):
    import expr
    memo, out = {}, []
    for k, (_, v, g, dom) in enumerate(e.syms):
        if expr.evaluate(g, env, memo):
            out.append(expr.evaluate(v, env, memo))
    return out


def work(job):
    import expr, llparse, sym, z3
    ir, name, case, opt = job
    t0 = time.time()
    out = {"harness": name, "case": case, "violations": [], "unknown": [], "queries": 0, "solver_s": 0.0}
    try:
        mod = _module(ir)
        kw = {k: opt[k] for k in ("merge", "loop_max", "relax_panics", "no_format") if k in opt}
        e = sym.run_harness(mod, name, case=list(case) if case else None, budget_s=opt.get("budget", 600), **kw)
        out["exec_s"] = time.time() - t0
        out["instructions"] = e.ninstr
        out["functions"] = sorted({e.pretty(f) for f in e.executed})
        out["feasibility_queries"] = e.q_feas
        out["feasibility_s"] = e.t_feas
        out["obligations"] = len(e.obl)
        out["max_loop"] = e.maxloop
        out["nondet"] = [d for _, _, _, d in e.syms][:400]
        out["nodes"] = expr._cnt
        tmo = opt.get("solver_timeout", 600)
        seen_viol = set()

        def decide(items, limit):
            """items: [(kind, label, guard)]; one query for all of them, split up when it is too hard or satisfiable"""
            items = [i for i in items if (i[0], i[1]) not in seen_viol]
            if not items:
                return
            guard = expr.FALSE
            for i in items:
                guard = expr.or_(guard, i[2])
            t = time.time()
            r, env = solve(e, guard, limit)
            out["queries"] += 1
            out["solver_s"] += time.time() - t
            if r == "unknown":
                if len(items) > 1:
                    h = len(items) // 2
                    decide(items[:h], limit)
                    decide(items[h:], limit)
                elif limit < tmo:
                    decide(items, tmo)
                else:
                    out["unknown"].append(f"solver gave up on {items[0][0]}: {items[0][1]}")
            elif r == "sat":
                memo = {}
                hit = [i for i in items if expr.evaluate(i[2], env, memo)]
                if not hit:
                    out["unknown"].append("model does not satisfy its query: " + str([i[:2] for i in items]))
                    return
                for i in hit:
                    if (i[0], i[1]) not in seen_viol:
                        seen_viol.add((i[0], i[1]))
                        out["violations"].append({"kind": i[0], "label": i[1], "values": values(e, env)})
                # a failed panic or memory access usually comes in many places: enough to report some
                if len(seen_viol) < 12:
                    decide([i for i in items if i not in hit], limit)

        uniq = {}
        for o in e.obl:
            uniq.setdefault((o[0], o[1], id(o[2])), o)
        checks = [o for o in uniq.values() if o[0] == "check"]
        others = [o for o in uniq.values() if o[0] != "check" and not (o[0] == "panic" and opt.get("panics_allowed"))]
        n = opt.get("chunk", 1)
        for i in range(0, len(checks), n):
            decide(checks[i:i + n], tmo if n == 1 else opt.get("chunk_timeout", 30))
        for i in range(0, len(others), 40):
            decide(others[i:i + 40], opt.get("chunk_timeout", 30))
        out["check_ids"] = sorted(e.checks_seen)
        cov = {}
        for i, g in e.covers.items():
            r, _ = solve(e, g, tmo)
            out["queries"] += 1
            cov[i] = r == "sat"
        out["covers"] = cov
        r, _ = solve(e, e.returned, tmo)
        out["returns"] = r == "sat"
        out["stubs"] = sorted(set(map(str, e.stubs)))
    except BaseException as x:
        b = getattr(x, "engine", None)
        k = len(case or ())
        if b is not None and len(b.syms) > k and k < opt.get("max_split", 0) and 0 < b.syms[k][3] <= 8:
            out["split_on"] = b.syms[k][3]
            out["split_why"] = str(x)
            out["wall_s"] = time.time() - t0
            return out
        out["error"] = f"{type(x).__name__}: {x}"
        if os.environ.get("VERIF_DEBUG"):
            out["error"] += "\n" + traceback.format_exc()
    out["wall_s"] = time.time() - t0
    return out


_MODS = {}


def _module(ir):
    import llparse
    if ir not in _MODS:
        _MODS[ir] = llparse.Module(ir)
    return _MODS[ir]


# ---------------------------------------------------------------- known findings
def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def tool_version(cmd):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, text=True).stdout.splitlines()[0]
    except Exception:
        return "?"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    a = ap.parse_args()
    pid, tier = a.id.upper(), a.tier
    cfg = plan.PLAN[pid]
    t0 = time.time()
    ir = build_ir(pid, cfg)
    t_build = time.time() - t0
    mod = _module(ir)       # parsed before the workers fork
    prefix = f"h_{pid.lower()}_"
    names = sorted({n.lstrip("@") for n in mod.fns if n.lstrip("@").startswith(prefix)})
    src = open(os.path.join(HERE, "harness/src", pid.lower() + ".rs")).read()
    expected = sorted(set(re.findall(r"\b(h_%s_\w+)\s*\{" % pid.lower(), src)))
    if names != expected:
        raise SystemExit(f"harnesses missing from the IR: {set(expected) ^ set(names)}")
    jobs = []
    hopts = cfg.get("harnesses", {})
    for h in hopts:
        if h not in names:
            raise SystemExit(f"plan names an unknown harness {h}")
    for n in names:
        o = {**cfg.get("defaults", {}), **hopts.get(n, {})}
        o.update(o.get(tier, {}))
        if o.get("tier", tier) != tier and o.get("tier") == "thorough" and tier == "quick":
            continue
        if a.only and not re.search(a.only, n):
            continue
        cases = [()]
        for k in o.get("split", []):
            cases = [c + (i,) for c in cases for i in range(k)]
        for c in cases:
            jobs.append((ir, n, c, o))
    # what has to be decided first, the slowest of it at the start
    jobs.sort(key=lambda j: (bool(j[3].get("deep")), -j[3].get("cost", 1)))
    deadline = t0 + (float(os.environ.get("VERIF_DEADLINE", "760")) if tier == "quick" else 1e9)
    results = []
    with mp.get_context("fork").Pool(min(a.j, max(1, len(jobs))), maxtasksperchild=1) as pool:
        import queue
        done = queue.Queue()

        def submit(job):
            pool.apply_async(work, (job,), callback=lambda r: done.put((job, r)),
                             error_callback=lambda x: done.put((job, {"harness": job[1], "case": job[2], "error": str(x), "violations": [],
                                                                      "unknown": [], "queries": 0, "solver_s": 0.0, "wall_s": 0.0})))
        for j in jobs:
            submit(j)
        pending = {(j[1], j[2]): j for j in jobs}
        while pending:
            try:
                core = any(not j[3].get("deep") for j in pending.values())
                job, r = done.get(timeout=max(0.0, deadline - (0 if core else 340) - time.time()))
            except queue.Empty:
                for job in pending.values():
                    results.append({"harness": job[1], "case": job[2], "error": "Budget: out of time", "violations": [], "unknown": [],
                                    "queries": 0, "solver_s": 0.0, "wall_s": 0.0})
                pool.terminate()
                break
            del pending[(job[1], job[2])]
            if r.get("split_on"):
                # too much at once: decide it case by case
                for i in range(r["split_on"]):
                    j = (job[0], job[1], tuple(job[2] or ()) + (i,), job[3])
                    pending[(j[1], j[2])] = j
                    submit(j)
                if a.v:
                    log(f"  {job[1]}{list(job[2])}: split after {r['wall_s']:.1f}s ({r['split_why']})")
                continue
            results.append(r)
            if a.v or r.get("error") or r["unknown"]:
                log(f"  {r['harness']}{list(r['case']) if r['case'] else ''}: exec {r.get('exec_s', 0):.1f}s "
                    f"instr {r.get('instructions')} obl {r.get('obligations')} queries {r['queries']} "
                    f"solver {r['solver_s']:.1f}s wall {r['wall_s']:.1f}s feas {r.get('feasibility_queries')} "
                    f"{r.get('error', '')} {r['unknown'] or ''} {[(v['label'], v['values']) for v in r['violations']][:3]}")
    shutil.rmtree(os.path.join(BUILD, "ir-" + pid), ignore_errors=True) if not os.environ.get("VERIF_KEEP") else None

    problems, violations, known, undecided = [], [], [], []
    byname = {}
    for r in results:
        byname.setdefault(r["harness"], []).append(r)
        # A deeper harness that is too hard is not decided, and the evidence says so; the others have to be
        deep = {**cfg.get("defaults", {}), **hopts.get(r["harness"], {})}.get("deep")
        if r.get("error"):
            (undecided if deep and r["error"].startswith("Budget") else problems).append(f"{r['harness']}: {r['error']}")
        for u in r["unknown"]:
            (undecided if deep and u.startswith("solver gave up") else problems).append(f"{r['harness']}: {u}")
    undecided = sorted(set(undecided))
    found = [(r, v) for r in results for v in r["violations"]]
    # vacuity: every harness returns, reaches its cover points and its checks
    for n, rs in byname.items():
        if any(r.get("error") or r["unknown"] or r["violations"] for r in rs):
            continue
        stops = {**cfg.get("defaults", {}), **hopts.get(n, {})}.get("may_not_return")
        if not stops and not any(r.get("returns") for r in rs):
            problems.append(f"{n}: never returns")
        want = set(map(int, re.findall(r"\bcover(?:_if)?\((?:.*,\s*)?(\d+)\)", body_of(src, n))))
        got = {i for r in rs for i, ok in r.get("covers", {}).items() if ok}
        if want - got:
            problems.append(f"{n}: cover points {sorted(want - got)} are unreachable")
        if not stops and not any(r.get("check_ids") for r in rs) and "check" in body_of(src, n):
            problems.append(f"{n}: no check was reached")
    findings = [f for f in known_findings()["findings"] if f["property"] == pid]
    if found:
        bins = {}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        seen = set()
        for r, v in found:
            key = (r["harness"], v["kind"], v["label"])
            if key in seen or len(seen) > 12:
                continue
            seen.add(key)
            ok = None
            for release in (False, True):
                if release not in bins:
                    bins[release] = build_replay(pid, cfg, release)
                p = subprocess.run([bins[release], r["harness"]] + list(map(str, v["values"])), stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, timeout=120, cwd="/tmp")
                if p.returncode not in (0, 2, 77):
                    ok = (release, p.returncode, p.stdout)
                    break
            what = f"{r['harness']}: {v['kind']} {v['label']} with values {v['values']}"
            if ok is None:
                problems.append("counterexample does not replay natively: " + what + f" (exit {p.returncode}: {p.stdout.strip()[-300:]})")
                continue
            v["replay"] = {"profile": "release" if ok[0] else "dev", "exit": ok[1], "output": ok[2][-2000:]}
            f = next((f for f in findings if f["harness"] == r["harness"] and f["check"] == f"{v['kind']} {v['label']}"), None)
            if f:
                known.append(f)
                continue
            path = os.path.join(HERE, "evidence", f"{pid}-violation-{len(violations)}.sh")
            with open(path, "w") as fh:
                fh.write(f"""#!/bin/bash
# {what}
# Observed natively ({v['replay']['profile']} profile, exit {ok[1]}):
""" + "".join("#   " + l + "\n" for l in ok[2].strip().splitlines()[-12:]) + f"""
cd {HERE}/harness && CARGO_TARGET_DIR=${{TMPDIR:-/tmp}}/barbarosa-replay RUSTFLAGS="{flags(cfg)}" \\
  cargo run --offline {'--release ' if ok[0] else ''}--bin replay --features {pid.lower()} -- {r['harness']} {' '.join(map(str, v['values']))}
""")
            os.chmod(path, 0o755)
            violations.append((path, what, ok[2].strip().splitlines()[-1:] if ok[2].strip() else ""))
        shutil.rmtree(os.path.join(BUILD, "replay-" + pid), ignore_errors=True)
    # a listed finding that no longer fails is stale: that is reported, not hidden
    for f in findings:
        if f not in known and any(n == f["harness"] for n in byname):
            log(f"note: the known finding {f['harness']} {f['check']} did not show on this tree")

    funcs = sorted({f for r in results for f in r.get("functions", [])})
    repo_funcs = [f for f in funcs if "barbarosa" in f]
    tot = lambda k: sum(r.get(k, 0) or 0 for r in results)
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": plan.LEVEL,
        "coverage": {
            "method": "symbolic execution of the compiled LLVM IR of /repo's sources, every obligation decided by Z3 (QF_BV)",
            "explanation": cfg["explanation"],
            "bounds": cfg["bounds"],
            "outside_the_bounds": cfg.get("outside", ""),
            "harnesses": {n: {"cases": len(rs), "obligations": sum(r.get("obligations", 0) for r in rs),
                              "queries": sum(r["queries"] for r in rs), "instructions": sum(r.get("instructions", 0) or 0 for r in rs),
                              "symbolic_inputs": max(len(r.get("nondet", [])) for r in rs),
                              "check_ids": sorted({i for r in rs for i in r.get("check_ids", [])}),
                              "cover_points_reached": sorted({i for r in rs for i, ok in r.get("covers", {}).items() if ok}),
                              "solver_s": round(sum(r["solver_s"] for r in rs), 2),
                              "exec_s": round(sum(r.get("exec_s", 0) for r in rs), 2)} for n, rs in sorted(byname.items())},
            "functions_encoded": len(funcs), "functions_of_barbarosa": repo_funcs[:200],
            "ir_instructions_executed": tot("instructions"), "obligations_discharged": tot("obligations"),
            "queries_discharged": tot("queries"), "feasibility_queries": tot("feasibility_queries"),
            "solver_time_s": round(tot("solver_s") + tot("feasibility_s"), 2), "build_s": round(t_build, 1),
            "problems": problems, "undecided": undecided, "known_findings_seen": [f["check"] for f in known],
            "tools": {"rustc": tool_version(["rustc", "--version"]), "z3": tool_version(["python3-vt", "-c", "import z3;print(z3.get_version_string())"])},
        },
        "assumptions": plan.ASSUMPTIONS + cfg.get("assumptions", []),
        "violations": len(violations),
        "wall_s": round(time.time() - t0, 1),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.only:
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    log(f"{pid} {tier}: {len(byname)} harnesses, {len(results)} executions, {tot('obligations')} obligations, {tot('queries')} queries, "
        f"solver {tot('solver_s') + tot('feasibility_s'):.1f}s, build {t_build:.1f}s, wall {time.time() - t0:.1f}s")
    for f in {f["harness"] + f["check"]: f for f in known}.values():
        log(f"KNOWN-FINDING: property={pid} {f['what']}")
    for path, what, last in violations:
        log(f"VIOLATION property={pid} replay={path}")
        log(f"  {what} {last}")
    for u in undecided:
        log("UNDECIDED: " + u)
    for p in problems:
        log("INCONCLUSIVE: " + p)
    sys.exit(1 if violations else 2 if problems else 0)


def body_of(src, name):
    i = re.search(r"\b%s\s*\{" % name, src).start()
    j = re.compile(r"\n    h_c\d\d_\w+\s*\{").search(src, i + 5)
    return src[i:j.start() if j else len(src)]


if __name__ == "__main__":
    main()
