#!/usr/bin/env python3
"""Runs the deterministic-simulation check of one property.

usage: check.py PROPERTY [--tier quick|thorough] [--seed N] [--runs N]
       check.py PROPERTY --replay FILE

Exit 0: the property held on every simulated run. Exit 1 with a line
"VIOLATION property=<id> replay=<path>": it is broken. Anything else is an
error of the check itself.
"""
import argparse, ctypes, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

import simbuild
from plan import PLAN, REAL, STUB

HERE = os.path.dirname(os.path.abspath(__file__))
KNOWN = os.path.join(HERE, "known-findings.txt")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
REPLAYS = os.environ.get("VERIF_REPLAYS", os.path.join(HERE, "replays"))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class CheckError(Exception):
    pass


def known(prop):
    """Lines 'known: property=<id> scenario=<s> class=<c> -- <what fails>'."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                head, _, what = l.partition(" -- ")
                sc = head.split(" scenario=")[1].split(" class=")[0]
                cl = head.split(" class=")[1]
                out.append((sc + "/" + cl, what))
    return out


def penv(tmp):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("GO"):
            del e[k]
    e["GORACE"] = "halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0 exitcode=0 log_path=%s/race" % tmp
    return e


def run_json(cmd, tmp, timeout):
    """Runs one process and returns (rc, list of JSON lines, stderr tail)."""
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=penv(tmp), cwd=tmp)
    except subprocess.TimeoutExpired:
        return None, [], "timeout"
    out = []
    for l in p.stdout.splitlines():
        try:
            out.append(json.loads(l))
        except ValueError:
            pass
    return p.returncode, out, p.stderr[-6000:]


def die_with_parent():
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def run_spec(binp, spec, tmp, timeout=120):
    f = os.path.join(tmp, "spec-%d.json" % os.getpid())
    json.dump(spec, open(f, "w"))
    rc, out, err = run_json([binp, "-spec", f], tmp, timeout)
    for o in out:
        if o.get("run"):
            return rc, o["run"], err
    return rc, None, err


def spec_of(rep, minimal):
    return {"prop": rep["prop"], "scenario": rep["scenario"], "seed": rep["seed"], "choices": rep["choices"],
            "has_choices": True, "config": rep["config"], "replay": True, "decisions": rep.get("decisions") or [],
            "full": True}


def batch(prop, binp, base, total, secs, tmp, kn):
    """Runs `total` simulated runs over the workers; returns merged results."""
    n = WORKERS
    per = (total + n - 1) // n
    procs, results = [], []
    todo = [(i, i, per) for i in range(n)]  # worker, start index, count
    t0 = time.time()
    hashes = set()
    stats, viol, crashed = [], [], []
    running = []
    serial = 0
    while todo or running:
        while todo and len(running) < n:
            wk, start, cnt = todo.pop(0)
            serial += 1
            st = os.path.join(tmp, "state-%d" % serial)
            hf = os.path.join(tmp, "hash-%d" % serial)
            of = open(os.path.join(tmp, "out-%d" % serial), "w+")
            ef = open(os.path.join(tmp, "err-%d" % serial), "w+")
            left = max(1.0, secs - (time.time() - t0))
            cmd = [binp, "-prop", prop, "-base", str(base), "-start", str(start), "-stride", str(n), "-count", str(cnt),
                   "-secs", "%.1f" % left, "-state", st, "-hashes", hf, "-known", "\x1f".join(k for k, _ in kn)]
            p = subprocess.Popen(cmd, stdout=of, stderr=ef, env=penv(tmp), cwd=tmp, preexec_fn=die_with_parent)
            running.append((p, wk, start, cnt, st, hf, of, ef))
        time.sleep(0.02)
        still = []
        for r in running:
            p, wk, start, cnt, st, hf, of, ef = r
            if p.poll() is None:
                if time.time() - t0 <= secs + 60:
                    still.append(r)
                    continue
                # The worker looks at the clock between runs: this run does not end.
                p.kill()
                p.wait()
                of.close()
                ef.close()
                crashed.append((state_idx(st), "hang", ""))
                continue
            of.seek(0)
            got = None
            for l in of.read().splitlines():
                try:
                    o = json.loads(l)
                except ValueError:
                    continue
                if "stats" in o:
                    got = o["stats"]
                if "violation" in o:
                    viol.append(o["violation"])
            of.close()
            if got is None:
                ef.seek(0)
                crashed.append((state_idx(st), p.returncode, ef.read()[-6000:]))
            else:
                stats.append(got)
                data = open(hf, "rb").read()
                hashes.update(data[i:i + 8] for i in range(0, len(data), 8))
                if got.get("next") and not got.get("timeout"):
                    todo.append((wk, start + got["next"] * n, cnt - got["next"]))
            ef.close()
        if viol or crashed:
            # let the others finish quickly: stop them
            for r in still:
                r[0].kill()
                r[0].wait()
            still = []
            todo = []
        running = still
    return stats, viol, crashed, len(hashes), time.time() - t0


def state_idx(f):
    try:
        return int.from_bytes(open(f, "rb").read(8), "little") - 1
    except OSError:
        return -1


def merge(stats):
    m = {}
    for s in stats:
        for k, v in s.items():
            if isinstance(v, bool):
                continue
            if isinstance(v, (int, float)):
                if k == "max_goroutines":
                    m[k] = max(m.get(k, 0), v)
                else:
                    m[k] = m.get(k, 0) + v
            elif isinstance(v, dict):
                d = m.setdefault(k, {})
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b
            elif isinstance(v, list) and v and isinstance(v[0], int):
                d = m.setdefault(k, [0] * len(v))
                for i, b in enumerate(v):
                    d[i] += b
            elif isinstance(v, list):
                m.setdefault(k, []).extend(v)
    return m


def determinism(prop, binp, base, tmp, k=40):
    """The same run indices in two processes with different batch layouts."""
    def tr(start, stride, count):
        try:
            out = subprocess.run([binp, "-prop", prop, "-base", str(base), "-start", str(start), "-stride", str(stride),
                                  "-count", str(count), "-trace"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120,
                                 env=penv(tmp), cwd=tmp).stdout
        except subprocess.TimeoutExpired as e:
            out = e.stdout or b""  # the batch finds the run that does not end
        out = out.decode("utf-8", "replace")
        d = {}
        for l in out[:out.rfind("\n") + 1].splitlines():
            if l[:1].isdigit():
                d[int(l.split()[0])] = l
        return d
    a, b = tr(0, 1, k), tr(0, 3, (k + 2) // 3)
    both = [i for i in a if i in b]
    diff = [i for i in both if a[i] != b[i]]
    return len(both), diff, [(a[i], b[i]) for i in diff[:3]]


def confirm_and_report(prop, binp, mode, v, tmp, tier):
    """Minimises, confirms in fresh processes, writes the replay file."""
    orig = spec_of(v, False)
    best, tries = None, 0
    if not v.get("overflow"):
        f = os.path.join(tmp, "min.json")
        s0 = dict(orig)
        json.dump(s0, open(f, "w"))
        rc, out, err = run_json([binp, "-minimize", f, "-secs", "25"], tmp, 120)
        for o in out:
            if o.get("minimize"):
                best = o["minimize"]
                tries = o.get("tries", 0)
    for cand, minimal in ((best, True), (v, False)):
        if not cand:
            continue
        spec = spec_of(cand, minimal)
        runs = [run_spec(binp, spec, tmp)[1] for _ in range(2)]
        if all(r and r["class"] == v["class"] for r in runs) and runs[0]["hash"] == runs[1]["hash"]:
            return write_replay(prop, mode, v, spec, runs[0], minimal, tries)
    # The recorded decisions did not reproduce it; the seed itself may.
    spec = {"prop": v["prop"], "scenario": v["scenario"], "seed": v["seed"], "full": True}
    runs = [run_spec(binp, spec, tmp)[1] for _ in range(2)]
    if all(r and r["class"] == v["class"] for r in runs) and runs[0]["hash"] == runs[1]["hash"]:
        return write_replay(prop, mode, v, spec, runs[0], False, 0)
    got = replay_sequence(prop, mode, binp, v["seed"] & 0xffffffff, v["seed"] >> 32, tmp, v["class"])
    if got:
        path = got
        return path, json.load(open(path))
    raise CheckError("a run failed (%s, seed %d, scenario %s) but did not fail again when replayed:\n%s" %
                     (v["class"], v["seed"], v["scenario"], v["msg"]))


def sequence_outcome(cmd, tmp, timeout=120):
    """What the last run of a sequence of runs in one process did: its violation's class, or how the process died."""
    rc, out, err = run_json(cmd, tmp, timeout)
    for o in out:
        if "violation" in o:
            return o["violation"]["class"], o["violation"], err
    if rc == 0:
        return None, None, err
    if rc is None:
        return "process crash: a simulated run does not end", None, err
    first = [l for l in err.splitlines() if l.startswith(("fatal error", "panic", "runtime:", "SIG", "throw"))]
    return "process crash: " + (first[0] if first else "exit %s" % rc), None, err


def replay_sequence(prop, mode, binp, idx, base, tmp, cls):
    """A failure that needs the runs before it in the same process (the code keeps state in global
    variables): the shortest sequence of runs found that ends with it."""
    j = 1
    while True:
        start = idx - j * WORKERS
        if start < 0:
            start = idx % WORKERS
        cnt = (idx - start) // WORKERS + 1
        cmd = [binp, "-prop", prop, "-base", str(base), "-start", str(start), "-stride", str(WORKERS), "-count", str(cnt)]
        r = [sequence_outcome(cmd, tmp) for _ in range(2)]
        c0, v0, err = r[0]
        if c0 and c0 == r[1][0] and (cls is None or c0 == cls):
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, "%s-seq-%s-%d.json" % (prop, hashlib.sha1(c0.encode()).hexdigest()[:8], idx))
            json.dump({"property": prop, "build": mode, "class": c0, "seed": (base << 32) | idx,
                       "violation": (v0["msg"].splitlines() if v0 else err.splitlines()[:60]),
                       "note": "fails after the %d runs before it in the same process" % (cnt - 1),
                       "schedule_and_faults": (v0 or {}).get("sched") or [], "command": cmd, "spec": None,
                       "how_to_replay": "python3 /verif/check.py %s --replay %s" % (prop, path)}, open(path, "w"), indent=1)
            return path
        if start == idx % WORKERS:
            return None
        j *= 4


def write_replay(prop, mode, v, spec, run, minimal, tries):
    os.makedirs(REPLAYS, exist_ok=True)
    name = "%s-%s-%d.json" % (prop, hashlib.sha1(v["class"].encode()).hexdigest()[:8], v["seed"])
    path = os.path.join(REPLAYS, name)
    doc = {"property": prop, "build": mode, "scenario": v["scenario"], "seed": v["seed"], "class": v["class"],
           "violation": run["msg"].splitlines(), "minimised": minimal, "minimisation_runs": tries,
           "decisions_in_original_run": len(v.get("decisions") or []),
           "decisions_in_replay": len(spec.get("decisions") or []),
           "workload_choices": run["choices"], "expected_hash": run["hash"],
           "schedule_and_faults": run.get("sched") or [], "history": run.get("events") or [],
           "goroutine_dump": (run.get("dump") or "").splitlines(), "spec": spec,
           "how_to_replay": "python3 /verif/check.py %s --replay %s" % (prop, path)}
    json.dump(doc, open(path, "w"), indent=1)
    return path, doc


def do_replay(prop, path, tmp):
    doc = json.load(open(path))
    binp, _ = simbuild.build(doc["build"])
    if doc["spec"] is None:
        cmd = [binp] + doc["command"][1:]
        cls, v, err = sequence_outcome(cmd, tmp)
        print("\n".join(l[:300] for l in err.splitlines()[:60]))
        if cls != doc["class"]:
            print("the recorded violation did not occur on this tree (%s)" % cls)
            return 0
        if v:
            print("seed=%d class=%r\n%s" % (v["seed"], v["class"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    rc, run, err = run_spec(binp, doc["spec"], tmp)
    if run is None:
        raise CheckError("replay process failed rc=%s\n%s" % (rc, err))
    print("\n".join((run.get("sched") or []) + (run.get("events") or [])))
    print("status=%d class=%r hash=%s (recorded %s)" % (run["status"], run["class"], run["hash"], doc["expected_hash"]))
    print(run["msg"])
    if run["class"] == doc["class"]:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("the recorded violation did not occur on this tree")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int, default=0)
    ap.add_argument("--secs", type=float, default=0)
    ap.add_argument("--replay")
    a = ap.parse_args()
    tmp = tempfile.mkdtemp(prefix="verifsim-")
    try:
        if a.replay:
            return do_replay(a.prop, os.path.abspath(a.replay), tmp)
        return check(a, tmp)
    except simbuild.BuildError as e:
        print("CHECK-ERROR build: %s" % e)
        return 2
    except CheckError as e:
        print("CHECK-ERROR: %s" % e)
        return 3
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(a, tmp):
    prop, tier = a.prop, a.tier
    pl = PLAN[prop]
    t0 = time.time()
    mode = pl.get("mode", "mem")
    binp, bt = simbuild.build(mode)
    total = a.runs or pl["quick"] * (1 if tier == "quick" else pl.get("thorough_factor", 30))
    secs = a.secs or (90 if tier == "quick" else 780)
    kn = known(prop)
    base = a.seed & 0x3fffffff
    nd, diff, ex = determinism(prop, binp, base, tmp, pl.get("det", 40))
    stats, viol, crashed, distinct, wall = batch(prop, binp, base, total, secs, tmp, kn)
    m = merge(stats)
    path = None
    rc = 0
    if viol:
        viol.sort(key=lambda v: v["seed"])
        for i, v in enumerate(viol):
            try:
                path, doc = confirm_and_report(prop, binp, mode, v, tmp, tier)
                break
            except CheckError:
                if i + 1 == min(len(viol), 5):
                    raise
        rc = 1
    elif crashed:
        path, rc = crash(prop, binp, mode, crashed, base, tmp)
    elif diff:
        # No property is broken; replays might not be exact.
        print("note: the simulation is not deterministic: %s" % (str(ex)[:1000],))
    for k, what in kn:
        if m.get("known", {}).get(k):
            print("KNOWN-FINDING: property=%s %s (%d runs)" % (prop, what, m["known"][k]))
    runs = m.get("runs", 0)
    for probe in pl.get("probes", []):
        if rc == 0 and runs >= 2000 and not (m.get("cover", {}).get(probe) or m.get("faults", {}).get(probe)):
            print("note: reach probe %r stayed at zero" % probe)
    kinds = dict(zip(["chan", "lock", "atomic", "spawn", "memory", "func", "yield", "block"], m.get("kinds", [0] * 8)))
    faults = dict(m.get("faults", {}))
    faults.update({"clock_jump_to_next_timer": m.get("clock_jumps", 0), "goroutine_stall": m.get("stalls", 0),
                   "sync_pool_miss": m.get("pool_drops", 0), "environment_choice": m.get("env_choices", 0),
                   "preemption": m.get("preempts", 0)})
    ev = {"property": prop, "tier": tier, "seed": a.seed, "level": "exploration",
          "coverage": {
              "evaluations": runs, "distinct_nontrivial": distinct,
              "rule": "one evaluation = one simulated run (one seed): workload, schedule and faults drawn from the seed; "
                      "non-trivial = at least two goroutines existed and control changed hands more than twice; distinct = by the 64-bit "
                      "hash of every context switch (who, where, to whom) and every recorded history event of the run",
              "samples": m.get("samples", [])[:4],
              "runs_per_hour": int(runs / wall * 3600) if wall > 0 else 0,
              "seeds_per_hour": int(runs / wall * 3600) if wall > 0 else 0,
              "simulated_seconds": round(m.get("sim_ns", 0) / 1e9, 3),
              "scheduling_points": m.get("steps", 0), "points_by_kind": kinds, "context_switches": m.get("switches", 0),
              "faults_injected": faults, "reach_probes": m.get("cover", {}),
              "scenarios": m.get("scenarios", {}), "strategies": m.get("strategies", {}),
              "runs_that_needed_the_fair_phase": m.get("fair_phase_runs", 0), "max_goroutines_in_a_run": m.get("max_goroutines", 0),
              "idle_clock_advances": m.get("idle_advances", 0),
              "determinism_rechecked_runs": nd, "determinism_mismatches": len(diff),
              "known_findings_seen": m.get("known", {}),
              "real_components": REAL, "stubbed_components": STUB,
              "build": mode, "build_s": round(bt, 2)},
          "assumptions": pl.get("assumptions", []),
          "violations": 1 if rc == 1 else 0, "wall_s": round(time.time() - t0, 2)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc == 1:
        d = json.load(open(path))
        print("\n".join(d["violation"][:30]))
        print("schedule and faults:")
        for l in d["schedule_and_faults"][:40]:
            print("  " + l)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("ok property=%s tier=%s runs=%d distinct=%d simulated_s=%.1f wall=%.1fs (build %.1fs)" %
          (prop, tier, runs, distinct, m.get("sim_ns", 0) / 1e9, time.time() - t0, bt))
    return 0


def crash(prop, binp, mode, crashed, base, tmp):
    """A worker process died: attribute it to its run and confirm twice."""
    idx, code, err = sorted(crashed, key=lambda c: c[0])[0]
    if idx < 0:
        raise CheckError("a worker died before its first run, exit %s\n%s" % (code, err))
    if code != "hang" and "out of memory" in err:
        raise CheckError("simulator limit: " + err)
    mode = PLAN[prop].get("mode", "mem")
    one = [binp, "-prop", prop, "-base", str(base), "-start", str(idx), "-count", "1"]
    r = [sequence_outcome(one, tmp, 60) for _ in range(2)]
    if r[0][0] is None or r[0][0] != r[1][0]:
        path = replay_sequence(prop, mode, binp, idx, base, tmp, None)
        if not path:
            raise CheckError("a worker died (exit %s) at run %d but not when repeated\n%s" % (code, idx, err))
        return path, 1
    cls, v, err = r[0]
    if "sim:" in cls:
        raise CheckError("simulator limit: " + cls + err)
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-crash-%d.json" % (prop, idx))
    json.dump({"property": prop, "build": mode, "class": cls, "violation": [cls] + err.splitlines()[:60],
               "schedule_and_faults": [], "command": one, "spec": None}, open(path, "w"), indent=1)
    return path, 1


if __name__ == "__main__":
    sys.exit(main())
