#!/usr/bin/env python3
"""Decide one property by seeded search over simulated runs.

  check.py PROPERTY [--tier quick|thorough] [--seed N]
  check.py replay FILE

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Anything else: the check itself failed.
"""
import argparse
import array
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build  # noqa: E402
import plan   # noqa: E402

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=77:"
                       "allocator_may_return_null=0:max_malloc_fill_size=1048576:"
                       "malloc_fill_byte=190:detect_stack_use_after_return=0")
ENV["UBSAN_OPTIONS"] = "print_stacktrace=0:exitcode=77"
JOBS = int(os.environ.get("SIM_JOBS", "8"))


def log(text):
    print(text, flush=True)


def sim(binary, args, timeout=300):
    r = subprocess.run([binary] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=ENV, timeout=timeout)
    return r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        m = re.match(r"known: property=(\S+) class=(\S+) match=\"([^\"]*)\" (.*)", line.strip())
        if m and m.group(1) == prop:
            out.append({"class": m.group(2), "match": m.group(3), "what": m.group(4)})
    return out


def classify(binary, prop, choices, tier):
    rc, out, _ = sim(binary, ["classify", "--property", prop, "--file", choices, "--tier", tier])
    m = re.search(r"^SIM-CLASS (\S+)", out, re.M)
    if rc != 0 or not m:
        raise RuntimeError("classify failed: rc=%d %s" % (rc, out[-500:]))
    err = re.findall(r"^SIM-ERR (.*)$", out, re.M)
    return m.group(1), err


def replay_once(binary, prop, choices, tier, quiet=False):
    """(class, message, hash, trace)"""
    args = ["replay", "--property", prop, "--file", choices, "--tier", tier]
    if quiet:
        args.append("--quiet")
    rc, out, err = sim(binary, args)
    h = re.search(r"^SIM-HASH (\S+)", out, re.M)
    v = re.search(r"^SIM-VIOLATION class=(\S+) (.*)$", out, re.M)
    trace = [l for l in out.splitlines() if not l.startswith("SIM-")]
    if rc == 0:
        return "none", "", h.group(1), trace
    if rc == 3 and v:
        return v.group(1), v.group(2), h.group(1), trace
    cls, lines = classify(binary, prop, choices, tier)
    text = [l for l in lines if l.strip()]
    key = [l for l in text if re.search(r"ERROR: |runtime error|Assertion|terminate|SIM-CRASH", l)]
    msg = (key or text or ["process ended with %d" % rc])[0]
    return cls, re.sub(r"==\d+==|0x[0-9a-f]{6,}", "", msg), "crash-" + cls, trace


def find_class(binary, prop, index, args, choices_file):
    """Reproduce run `index` in a fresh process; write its choices."""
    # The choice list is recorded by a child that may crash, so it is streamed
    # to the file by the simulator itself.
    rc, out, err = sim(binary, ["record", "--property", prop, "--seed", str(args.seed),
                                "--index", str(index), "--tier", args.tier,
                                "--out", choices_file])
    if rc != 0 or not os.path.exists(choices_file):
        raise RuntimeError("recording run %d failed (rc=%d): %s" % (index, rc, err[-500:]))


def explore(binary, prop, args, count, seconds, scratch):
    procs = []
    for w in range(JOBS):
        n = (count - w + JOBS - 1) // JOBS
        if n <= 0:
            continue
        base = os.path.join(scratch, "w%d" % w)
        argv = [binary, "run", "--property", prop, "--seed", str(args.seed), "--start", str(w),
                "--stride", str(JOBS), "--count", str(n), "--seconds", str(seconds),
                "--tier", args.tier, "--progress", base + ".progress", "--out", base + ".json"]
        errf = open(base + ".err", "wb")
        procs.append((w, base, subprocess.Popen(argv, stdout=subprocess.DEVNULL, stderr=errf,
                                                env=ENV), errf))
    deadline = time.time() + seconds + 120
    results, suspects = [], []
    for w, base, p, errf in procs:
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = -99
        errf.close()
        if rc == 0 and os.path.exists(base + ".json"):
            r = json.load(open(base + ".json"))
            r["worker"] = w
            for suffix in ("hashes", "traces"):
                a = array.array("Q")
                with open(base + ".json." + suffix, "rb") as fh:
                    a.frombytes(fh.read())
                r[suffix] = a
            results.append(r)
            suspects += [(v["index"], v["class"]) for v in r["violations"]]
        else:
            data = open(base + ".progress", "rb").read(8) if os.path.exists(base + ".progress") else b""
            if len(data) == 8:
                # Out of time or out of memory may be the machine's doing.
                kind = "stopped" if rc in (78, -99, -9) else "crash"
                suspects.append((struct.unpack("<Q", data)[0], kind))
            else:
                raise RuntimeError("worker %d died (rc=%s) before its first run: %s" %
                                   (w, rc, open(base + ".err", errors="replace").read()[-800:]))
    return results, sorted(suspects)


def report(binary, prop, args, index, scratch):
    """Reproduce, minimise and save one failing run. None if not reproducible."""
    raw = os.path.join(scratch, "raw.choices")
    find_class(binary, prop, index, args, raw)
    cls, msg, h, _ = replay_once(binary, prop, raw, args.tier, quiet=True)
    if cls == "none":
        return None
    small = os.path.join(scratch, "small.choices")
    budget = "3000" if args.tier == "thorough" else "600"
    seconds = "240" if args.tier == "thorough" else "45"
    if cls == "hang":
        budget, seconds = "4", "120"
    try:
        rc, out, err = sim(binary, ["shrink", "--property", prop, "--file", raw, "--class", cls,
                                    "--budget", budget, "--seconds", seconds,
                                    "--tier", args.tier, "--out", small], timeout=400)
    except subprocess.TimeoutExpired:
        rc = 1
    if rc != 0 or not os.path.exists(small):
        shutil.copy(raw, small)
    cls1, msg, h1, trace = replay_once(binary, prop, small, args.tier)
    cls2, _, h2, _ = replay_once(binary, prop, small, args.tier)
    if cls1 != cls or cls2 != cls or h1 != h2:
        shutil.copy(raw, small)
        cls1, msg, h1, trace = replay_once(binary, prop, small, args.tier)
        cls2, _, h2, _ = replay_once(binary, prop, small, args.tier)
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d-%d.json" % (prop, args.tier, args.seed, index))
    raw_n = len(open(raw).read().split())
    choices = [int(x) for x in open(small).read().split()]
    json.dump({"property": prop, "class": cls1, "message": msg, "seed": args.seed,
               "index": index, "tier": args.tier, "choices_recorded": raw_n,
               "choices": choices, "trace_hash": h1, "reproduced_twice": h1 == h2,
               "trace": trace[-400:],
               "replay_cmd": "python3 check.py replay " + path},
              open(path, "w"), indent=1)
    return {"class": cls1, "message": msg, "path": path, "choices": len(choices),
            "recorded": raw_n, "index": index, "trace": trace}


def run_sequence(binary, prop, seed, tier, indices, scratch, quiet=True):
    """Runs one after another in a fresh process: (class, message, hash, trace) of the last."""
    f = os.path.join(scratch, "sequence")
    with open(f, "w") as fh:
        fh.write(" ".join(map(str, indices)) + "\n")
    args = ["sequence", "--property", prop, "--seed", str(seed), "--tier", tier, "--file", f]
    try:
        rc, out, err = sim(binary, args + (["--quiet"] if quiet else []), timeout=200)
    except subprocess.TimeoutExpired:
        return "none", "", "", []
    h = re.search(r"^SIM-HASH (\S+)", out, re.M)
    v = re.search(r"^SIM-VIOLATION class=(\S+) (.*)$", out, re.M)
    trace = [l for l in out.splitlines() if not l.startswith("SIM-")]
    if rc == 0 and h:
        return "none", "", h.group(1), trace
    if rc == 3 and v and h:
        return v.group(1), v.group(2), h.group(1), trace
    if "SIM-LAST" not in out or rc in (78, -9):
        return "none", "", "", trace  # not the last run's doing, or out of time
    key = [l for l in err.splitlines()
           if re.search(r"ERROR: |runtime error|Assertion|terminate|SIM-CRASH", l)]
    msg = (key or ["process ended with %d" % rc])[0]
    return "crash", re.sub(r"==\d+==|0x[0-9a-f]{6,}", "", msg), "crash", trace


def report_sequence(binary, prop, args, index, scratch):
    """A failure that needs what earlier runs left behind in the process (state
    that outlives the objects it belongs to): find a short history that shows it."""
    whole = []
    for k, i in enumerate(range(index % JOBS, index + 1, JOBS)):
        whole.append(i)
        if k % 50 == 7 and i != index:
            whole.append(i)
    deadline = time.time() + (240 if args.tier == "thorough" else 90)

    def fails(indices):
        return run_sequence(binary, prop, args.seed, args.tier, indices, scratch)

    n, best, cls = 2, None, "none"
    while time.time() < deadline:
        cls = fails(whole[-n:])[0]
        if cls != "none":
            best = whole[-n:]
            break
        if n >= len(whole):
            break
        n *= 2
    if best is None:
        return None
    size = max(1, (len(best) - 1) // 2)
    while size >= 1 and len(best) > 1:
        i = 0
        while i < len(best) - 1 and time.time() < deadline:
            shorter = best[:i] + best[min(i + size, len(best) - 1):]
            if fails(shorter)[0] == cls:
                best = shorter
            else:
                i += size
        size //= 2
    cls1, msg, h1, trace = run_sequence(binary, prop, args.seed, args.tier, best, scratch, False)
    cls2, _, h2, _ = run_sequence(binary, prop, args.seed, args.tier, best, scratch, False)
    if cls1 != cls or cls2 != cls or h1 != h2:
        return None
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d-%d.json" % (prop, args.tier, args.seed, index))
    msg = "after %d earlier run(s) in the same process: %s" % (len(best) - 1, msg)
    json.dump({"property": prop, "class": cls1, "message": msg, "seed": args.seed,
               "index": index, "tier": args.tier, "sequence": best,
               "sequence_recorded": len(whole), "trace_hash": h1, "reproduced_twice": True,
               "trace": trace[-400:], "replay_cmd": "python3 check.py replay " + path},
              open(path, "w"), indent=1)
    return {"class": cls1, "message": msg, "path": path, "choices": len(best),
            "recorded": len(whole), "index": index, "trace": trace}


def stable(binary, prop, args, index, scratch):
    """Do two fresh processes agree about this run?"""
    f = os.path.join(scratch, "stable.choices")
    find_class(binary, prop, index, args, f)
    return (replay_once(binary, prop, f, args.tier, quiet=True)[2] ==
            replay_once(binary, prop, f, args.tier, quiet=True)[2])


def samples_of(binary, prop, args, results, scratch):
    out = []
    for r in results:
        for index in r["samples"]:
            if len(out) >= 2:
                return out
            f = os.path.join(scratch, "sample.choices")
            find_class(binary, prop, index, args, f)
            cls, msg, h, trace = replay_once(binary, prop, f, args.tier)
            out.append({"seed": args.seed, "index": index, "trace_hash": h,
                        "choices": len(open(f).read().split()), "outcome": cls,
                        "trace_head": trace[:40], "trace_lines": len(trace)})
    return out


def build_for(prop):
    kind = plan.PLANS[prop]["quic"]
    return build.build_simq(kind == "program") if kind else build.build_sim()


def check(prop, args):
    begin = time.time()
    p = plan.PLANS[prop]
    try:
        binary = build_for(prop)
    except build.BuildError as e:
        log("check error: the simulator does not build\n%s" % e)
        return 2
    built = time.time() - begin
    scratch = tempfile.mkdtemp(prefix="sim-%s-" % prop)
    try:
        return decide(prop, args, p, binary, built, begin, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, args, p, binary, built, begin, scratch):
    count = args.count or p[args.tier + "_runs"]
    seconds = p[args.tier + "_seconds"]
    t0 = time.time()
    results, suspects = explore(binary, prop, args, count, seconds, scratch)
    search = time.time() - t0
    known = known_findings(prop)
    violation, known_hit = None, set()
    unreproduced = []
    for index, cls in suspects[:12]:
        if violation is not None:
            break
        r = report(binary, prop, args, index, scratch)
        if r is None:
            unreproduced.append((index, cls))
            continue
        hit = [k for k in known if k["class"] == r["class"] and k["match"] in r["message"]]
        if hit:
            known_hit.add(hit[0]["what"])
            os.unlink(r["path"])
            continue
        violation = r

    for index, cls in [u for u in unreproduced if u[1] != "stopped"][:2]:
        if violation is None:
            violation = report_sequence(binary, prop, args, index, scratch)
    differing = sorted(r["first_differing"] for r in results if r["differing"])
    unstable = [i for i in differing[:2]
                if violation is None and not stable(binary, prop, args, i, scratch)]

    runs = sum(r["runs"] for r in results)
    counters = {}
    for r in results:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
    hashes, traces = set(), set()
    for r in results:
        hashes.update(r["hashes"])
        traces.update(r["traces"])
    faults = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault.")}
    probes = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("probe.")}
    other = {k: v for k, v in sorted(counters.items()) if not k.startswith(("fault.", "probe."))}
    hours = max(search, 1e-9) / 3600
    missing = [n for n in p.get("must_reach", []) if counters.get(n, 0) == 0]
    samples = [] if violation or not results else samples_of(binary, prop, args, results, scratch)
    if violation:
        samples = [{"violation": violation["message"], "index": violation["index"],
                    "trace_head": violation["trace"][:40]}]
    if not samples:
        samples = [{"note": "no run completed"}]
    evidence = {
        "property": prop, "tier": args.tier, "seed": args.seed, "level": p["level"],
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(traces),
            "rule": p["rule"] + " Two runs are distinct when the 64-bit hashes of their full "
                    "traces (every scheduling decision, delivery, fault and observed event with "
                    "its bytes) differ.",
            "samples": samples,
            "nontrivial_runs": sum(r["nontrivial"] for r in results),
            "distinct_schedules": len(hashes),
            "distinct_schedules_measure": "hash over scheduling actions, chunk boundaries and "
                                          "injected faults only, payload bytes excluded",
            "runs_per_hour": int(runs / hours),
            "seeds_per_hour": int(runs / hours),
            "scheduler_steps": sum(r["steps"] for r in results),
            "simulated_seconds": round(sum(r["sim_us"] for r in results) / 1e6, 3),
            "faults_injected": faults,
            "fault_kinds": len([v for v in faults.values() if v]),
            "rare_states_reached": probes,
            "events": other,
            "runs_replayed_bit_identically": sum(r["replayed_identically"] for r in results),
            "search_wall_s": round(search, 2), "build_wall_s": round(built, 2),
            "workers": JOBS, "planned_runs": count,
            "real_components": p["real"], "stub_components": p["stub"],
        },
        "assumptions": p["assumptions"],
        "wall_s": round(time.time() - begin, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
        fh.write("\n")
    for what in sorted(known_hit):
        log("KNOWN-FINDING: property=%s %s" % (prop, what))
    log("%s %s: %d runs (%d distinct nontrivial traces, %d distinct schedules), %d steps, "
        "%.0f simulated s, %.1f s search, faults %s" %
        (prop, args.tier, runs, len(traces), len(hashes), evidence["coverage"]["scheduler_steps"],
         evidence["coverage"]["simulated_seconds"], search, faults))
    if violation:
        log("seed=%d index=%d class=%s choices=%d (minimised from %d): %s" %
            (args.seed, violation["index"], violation["class"], violation["choices"],
             violation["recorded"], violation["message"]))
        for line in violation["trace"][-30:]:
            log("  " + line)
        log("VIOLATION property=%s replay=%s" % (prop, violation["path"]))
        return 1
    stopped = [u for u in unreproduced if u[1] == "stopped"]
    if stopped:
        log("note: the worker of runs %s was stopped, though the run ends well" % stopped)
    unreproduced = [u for u in unreproduced if u[1] != "stopped"]
    if unreproduced:
        log("check error: runs %s failed once and did not fail again" % unreproduced)
        return 2
    if unstable:
        log("check error: runs %s are not repeatable" % unstable)
        return 2
    if differing:
        log("note: runs %s differ from their repetition in the same process, though not "
            "between processes" % differing)
    if runs == 0:
        log("check error: nothing was explored")
        return 2
    if missing:
        log("note: never reached in this run: %s" % ", ".join(missing))
    return 0


def replay(path):
    r = json.load(open(path))
    binary = build_for(r["property"])
    scratch = tempfile.mkdtemp(prefix="sim-replay-")
    try:
        if "sequence" in r:
            cls, msg, h, trace = run_sequence(binary, r["property"], r["seed"], r["tier"],
                                              r["sequence"], scratch, quiet=False)
        f = os.path.join(scratch, "choices")
        with open(f, "w") as fh:
            fh.write(" ".join(map(str, r.get("choices", []))) + "\n")
        if "sequence" not in r:
            cls, msg, h, trace = replay_once(binary, r["property"], f, r["tier"])
        for line in trace:
            log(line)
        log("class=%s %s" % (cls, msg))
        log("trace hash %s, recorded %s: %s" %
            (h, r["trace_hash"], "identical" if h == r["trace_hash"] else "DIFFERENT"))
        if cls == "none":
            log("no violation")
            return 0
        log("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("file", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--count", type=int, default=0)
    args = ap.parse_args()
    if args.property == "replay":
        return replay(args.file)
    if args.property not in plan.PLANS:
        log("unknown property " + args.property)
        return 2
    try:
        return check(args.property, args)
    except Exception as e:  # the check itself failed
        import traceback
        traceback.print_exc()
        log("check error: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
