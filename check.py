#!/usr/bin/env python3
"""Solver-based checks of /repo.

  check.py PROPERTY [quick|thorough]   decide one property
  check.py replay FILE                 run a recorded counterexample against /repo
  check.py setup                       build the symbolic executor

Every run compiles /repo's current sources together with the harness crate to
LLVM IR, executes that IR symbolically (symx/, Z3), replays what it finds against
a native build of the same sources and rewrites evidence/PROPERTY.json.
"""
import fcntl
import json
import os
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from plan import PLAN, SUMMARY  # noqa: E402

BUILD = os.path.join(VERIF, "build")
SYMX = os.path.join(BUILD, "symx", "release", "symx")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)


class Broken(Exception):
    """The check itself cannot give an answer."""


def sh(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise Broken("%s failed:\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-4000:]))
    return p.stdout.decode(errors="replace")


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))


def build_symx():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sh(["cargo", "build", "--release", "--quiet", "--target-dir", os.path.join(BUILD, "symx")],
           os.path.join(VERIF, "symx"), 1500)


def build_code(work):
    """IR and native replay program, both from /repo as it is now."""
    h = os.path.join(VERIF, "harness")
    ir = subprocess.Popen(
        ["cargo", "rustc", "--release", "--lib", "--quiet", "--target-dir", os.path.join(work, "ir"), "--",
         "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
        cwd=h, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    nat = subprocess.Popen(
        ["cargo", "build", "--release", "--bin", "replay", "--features", "native", "--quiet",
         "--target-dir", os.path.join(work, "native")],
        cwd=h, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    for name, p in (("IR", ir), ("native", nat)):
        out = p.communicate(timeout=800)[0].decode(errors="replace")
        if p.returncode != 0:
            raise Broken("%s build failed:\n%s" % (name, out[-4000:]))
    deps = os.path.join(work, "ir", "release", "deps")
    lls = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("wfh") and f.endswith(".ll")]
    if len(lls) != 1:
        raise Broken("no unique IR file in " + deps)
    return lls[0], os.path.join(work, "native", "release", "replay")


def replay(prog, entry, params, inputs, kind):
    """Run one assignment natively: (confirmed, what happened)."""
    ok, what = replay_once(prog, entry, params, inputs, kind)
    # code with random outcomes (hash maps) may need several attempts
    n = 1
    while not ok and "COMPLETED" in what and "SCHEDULES" not in what and kind in ("check", "panic") and n < 10:
        ok, what = replay_once(prog, entry, params, inputs, kind)
        n += 1
    return ok, what


def replay_once(prog, entry, params, inputs, kind):
    cmd = [prog, entry, ",".join(map(str, params)), "one"] + [str(x) for x in inputs]
    try:
        p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=40 if "beside" in entry else 30)
    except subprocess.TimeoutExpired:
        return True, "did not terminate within 30 s"
    out = p.stdout.decode(errors="replace")
    if p.returncode == 10 and "CHECK FAILED" in out:
        return True, out
    if p.returncode == 20:
        return False, out
    if p.returncode != 0:
        return True, out + "\nexit status %d" % p.returncode
    if kind == "memory" and shutil.which("valgrind"):
        try:
            p = subprocess.run(["valgrind", "--error-exitcode=99", "-q"] + cmd, env=ENV, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=120)
            if p.returncode == 99:
                return True, p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            pass
    return False, out


def validate(prog, entry, params, val, again=False):
    """Run sampled paths natively and compare what was observed."""
    if os.path.getsize(val) == 0:
        return 0, None
    try:
        p = subprocess.run([prog, entry, ",".join(map(str, params)), "all", val], env=ENV, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=300)
    except subprocess.TimeoutExpired:
        return "timeout" if again else (-1, None)
    out = p.stdout.decode(errors="replace")
    if p.returncode == 31 and "FAILED inputs=" in out:
        # the real code fails where the symbolic execution did not
        return 0, [int(x) for x in out.split("FAILED inputs=")[1].split("\n")[0].split()]
    if p.returncode == 30 and not again:
        # the same every time, or code with random outcomes?
        other = [validate(prog, entry, params, val, True) for _ in range(4)]
        if any(o != out for o in other):
            return 0, None
    if again:
        return out
    if p.returncode != 0 or "VALIDATED" not in out:
        # the executor misrepresents this run: what it says of it decides nothing
        print("the symbolic and the native execution of %s %s differ:\n%s" % (entry, params, out[-2000:]))
        return -1, None
    return int(out.split("VALIDATED")[1].split()[0]), None


def src_lines(d):
    """Lines per source file under test that some explored path executed."""
    r = {}
    for f, ls in d.get("lines", {}).items():
        r.setdefault(os.path.basename(f), set()).update(ls)
    return r


def main(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    deadline = t0 + (620 if tier == "quick" else 6 * 3600)
    ev_dir = os.path.join(VERIF, "evidence")
    rp_dir = os.path.join(ev_dir, "replays")
    os.makedirs(rp_dir, exist_ok=True)
    for f in os.listdir(rp_dir):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(rp_dir, f))
    build_symx()
    work = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    try:
        ll, prog = build_code(work)
        t_build = time.time() - t0
        runs, samples, funcs, lines = [], [], set(), {}
        tot = dict.fromkeys(
            ["paths", "completed", "excluded_by_assumption", "unexplored", "instructions", "forks",
             "branches_by_domain", "branches_by_model", "z3_queries", "z3_cached", "z3_unsat", "z3_s", "assertions",
             "assertions_folded", "assertions_by_domain", "assertions_by_z3", "symbolic_variables"], 0)
        reach, asserted, undecided, violations, unconfirmed = {}, {}, {}, [], []
        validated = 0
        plan = PLAN[prop][tier] if tier in PLAN[prop] else PLAN[prop]["quick"]
        stop = threading.Event()

        def run_step(i):
            step = plan[i]
            left = deadline - time.time()
            if stop.is_set() or left < 1:
                return None
            budget = min(step.get("time", 120 if tier == "quick" else 3600), left)
            out, val = os.path.join(work, "out%d.json" % i), os.path.join(work, "val%d.txt" % i)
            par = ",".join(map(str, step["p"]))
            log = os.path.join(work, "log%d.txt" % i)
            with open(log, "wb") as lf:
                p = subprocess.Popen(
                    [SYMX, ll, step["h"], out, "--params", par, "--time", str(budget),
                     "--seed", str(seed), "--val", val, "--steps", str(step.get("steps", 100000000))],
                    stdout=lf, stderr=subprocess.STDOUT, preexec_fn=limit_memory)
                # symx minds the time between paths, so that one path of no end is cut off here
                end = min(time.time() + budget + 60, max(deadline + 30, time.time() + 60))
                pause = 0.02
                while p.poll() is None:
                    if stop.is_set() or time.time() > end:
                        p.kill()
                        p.wait()
                        if stop.is_set():
                            return None
                        return "no end", 0
                    time.sleep(pause)
                    pause = min(pause * 1.2, 0.3)
            said = open(log, "rb").read()
            if p.returncode < 0 and b"memory" in said:
                return "no memory", 0
            if p.returncode != 0:
                raise Broken("symx %s %s: %s" % (step["h"], par, said.decode(errors="replace")[-2000:]))
            d = json.load(open(out))
            confirmed, not_confirmed = [], []
            for f in d["found"]:
                ok, what = replay(prog, step["h"], step["p"], f["inputs"], f["kind"])
                f["native"] = what
                if ok:
                    confirmed.append(f)
                    if len(confirmed) >= 3:
                        break
                else:
                    not_confirmed.append(f)
                    # the step or depth limit, or the executor, not the code: this path is undecided
                    why = "step limit" if f["kind"] in ("hang", "stack") else "counterexample not reproduced natively"
                    d["undecided"][why] = d["undecided"].get(why, 0) + 1
                    if len(not_confirmed) >= (3 if "beside" in step["h"] else 20):
                        break
            if confirmed:
                stop.set()
            n_val, bad = validate(prog, step["h"], step["p"], val)
            if n_val < 0:
                n_val = 0
                d["undecided"]["native run differs"] = d["undecided"].get("native run differs", 0) + 1
            if bad is not None and not confirmed:
                f = {"kind": "native", "msg": "a solved path fails in the real code", "inputs": bad, "texts": []}
                ok, f["native"] = replay(prog, step["h"], step["p"], bad, "native")
                if ok:
                    stop.set()
                    confirmed.append(f)
                else:
                    not_confirmed.append(f)
                    d["undecided"]["native failure not repeated"] = 1
            d["found"], d["not_confirmed"] = confirmed, not_confirmed
            os.remove(out)
            os.remove(val)
            return d, n_val

        pool = ThreadPoolExecutor(max_workers=4)
        jobs = [pool.submit(run_step, i) for i in range(len(plan))]
        try:
            results = [j.result() for j in jobs]
        except Exception:
            stop.set()
            raise
        for step, res in zip(plan, results):
            if res is None:
                continue
            d, n_val = res
            entry, params, bound = step["h"], step["p"], step["bound"]
            if isinstance(d, str):
                runs.append({"harness": entry, "params": params, "bound": bound, "paths": 0, "assertions": 0,
                             "z3_queries": 0, "z3_s": 0, "complete": False, "not_reached": [], "note": d})
                undecided[d] = undecided.get(d, 0) + 1
                continue
            validated += n_val
            for k in tot:
                tot[k] += d[k]
            for k, v in d["reach"].items():
                reach[k] = reach.get(k, 0) + v
            for k, v in d["assertion_counts"].items():
                asserted[k] = asserted.get(k, 0) + v
            for k, v in d["undecided"].items():
                undecided[k] = undecided.get(k, 0) + v
            funcs.update(d["functions"])
            for f, ls in src_lines(d).items():
                lines.setdefault(f, set()).update(ls)
            missing = [r for r in step.get("must_reach", []) if not d["reach"].get(r)]
            run = {
                "harness": entry, "params": params, "bound": bound, "paths": d["paths"],
                "instructions": d["instructions"], "longest_path": d["longest_path"], "assertions": d["assertions"],
                "z3_queries": d["z3_queries"], "z3_s": d["z3_s"], "validated_natively": n_val,
                "complete": d["unexplored"] == 0 and not d["undecided"], "wall_s": d["wall_s"],
                "not_reached": missing}
            runs.append(run)
            samples += d["samples"][:2]
            for f in d["found"] + d["not_confirmed"]:
                rec = {"property": prop, "harness": entry, "params": params, "inputs": f["inputs"],
                       "kind": f["kind"], "message": f["msg"], "texts": [t[:4000] for t in f["texts"]],
                       "native": f["native"][-3000:]}
                if f in d["not_confirmed"]:
                    unconfirmed.append(rec)
                elif len(violations) < 5:
                    path = os.path.join(rp_dir, "%s-%d.json" % (prop, len(violations) + 1))
                    json.dump(rec, open(path, "w"), indent=1)
                    violations.append((path, rec))
        skipped = len(plan) - len(runs) if not violations else 0
        exhaustive = not violations and skipped == 0 and all(r["complete"] for r in runs)
        cov = {
            "states": tot["paths"], "transitions": tot["instructions"],
            "traces_validated_against_impl": validated, "samples": samples[:12], "exhaustive": exhaustive,
            "explanation": "states: symbolic paths explored, each standing for all inputs with the same branch "
                           "outcomes; transitions: LLVM instructions executed symbolically; traces validated: paths "
                           "whose solved inputs were run through the native build with equal observations",
            "functions_encoded": sorted(funcs),
            "source_lines_executed": {f: len(v) for f, v in sorted(lines.items())},
            "bounds": [r["bound"] for r in runs], "runs": runs,
            "assertions_discharged": tot["assertions"], "assertions_by_constant_folding": tot["assertions_folded"],
            "assertions_by_exact_byte_domains": tot["assertions_by_domain"],
            "assertions_by_z3": tot["assertions_by_z3"], "assertion_counts": asserted,
            "branch_decisions_by_exact_byte_domains": tot["branches_by_domain"],
            "branch_decisions_by_model": tot["branches_by_model"],
            "z3_queries": tot["z3_queries"], "z3_unsat": tot["z3_unsat"], "z3_answers_reused": tot["z3_cached"],
            "z3_seconds": round(tot["z3_s"], 3), "paths_excluded_by_assumption": tot["excluded_by_assumption"],
            "paths_unexplored_at_time_limit": tot["unexplored"], "undecided": undecided, "reached": reach,
            "symbolic_variables": tot["symbolic_variables"], "build_s": round(t_build, 2),
            "unconfirmed_counterexamples": unconfirmed[:5], "runs_skipped_at_time_limit": skipped,
        }
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
              "assumptions": SUMMARY["assumptions"], "wall_s": round(time.time() - t0, 2),
              "violations": len(violations)}
        with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for r in runs:
            print("%-14s %-16s paths=%-7d assertions=%-7d z3=%d/%.1fs %s%s" % (
                r["harness"], ",".join(map(str, r["params"])), r["paths"], r["assertions"], r["z3_queries"], r["z3_s"],
                "complete" if r["complete"] else "INCOMPLETE", " NOT REACHED: %s" % r["not_reached"] if r["not_reached"] else ""))
        if violations:
            for path, rec in violations[:3]:
                print("%s: %s\n  input: %s" % (rec["kind"], rec["message"], " | ".join(repr(t) for t in rec["texts"])[:600]))
                print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        for r in unconfirmed[:3]:
            print("UNDECIDED (does not reproduce natively): %s %s %s %s" % (
                r["harness"], r["params"], r["message"], r["native"][-500:]))
        print("%s held: %d paths, %d assertions, %d z3 queries, %d paths validated natively, %.1f s" % (
            prop, tot["paths"], tot["assertions"], tot["z3_queries"], validated, time.time() - t0))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def do_replay(path):
    rec = json.load(open(path))
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    try:
        _, prog = build_code(work)
        ok, what = replay(prog, rec["harness"], rec["params"], rec["inputs"], rec["kind"])
        print(what)
        print("reproduced" if ok else "not reproduced")
        return 1 if ok else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        if len(sys.argv) < 2:
            print(__doc__)
            sys.exit(2)
        if sys.argv[1] == "setup":
            build_symx()
            sys.exit(0)
        if sys.argv[1] == "replay":
            sys.exit(do_replay(sys.argv[2]))
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(main(sys.argv[1], tier))
    except Broken as e:
        print("CHECK BROKEN: %s" % e)
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
