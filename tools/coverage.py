#!/usr/bin/env python3
"""Line coverage of the library under the worlds: what no run ever executes.

  tools/coverage.py [RUNS [TIER [PROPERTY...]]]      (works in /tmp/simcov)
"""
import concurrent.futures, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import build, plan

W = "/tmp/simcov"
runs = sys.argv[1] if len(sys.argv) > 1 else "3000"
tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
props = sys.argv[3:] or sorted(plan.PLANS)
build.BUILD = W
os.makedirs(W + "/o", exist_ok=True)
os.chdir(W + "/o")
for f in os.listdir("."):
    if f.endswith((".gcda", ".gcov")):
        os.unlink(f)
inc = build.include_flags()
jobs, objs = [], []
def add(s, name, flags):
    o = W + "/o/" + name + ".o"
    key = build.tree_digest([s, build.VERIF + "/sim", build.REPO + "/bnl"], flags)
    objs.append(o)
    stamp = o + ".key"
    if os.path.exists(o) and os.path.exists(stamp) and open(stamp).read() == key:
        return
    jobs.append((s, o, flags, stamp, key))
for lib in ("base", "http3", "log"):
    for s in build.lib_sources(lib):
        add(s, os.path.relpath(s, build.REPO).replace("/", "_")[:-4], ["g++", "-O0", "-g1", "-w", "--coverage"] + inc)
tools = []
for a in ("encode", "decode"):
    s = build.REPO + "/bnl/http3/app/qpack/qpack-interop-%s.cpp" % a
    add(s, "tool_" + a, ["g++", "-O0", "-g1", "-w", "--coverage", "-U_FORTIFY_SOURCE"] + inc)
for f in build.SIM_SOURCES:
    add(build.VERIF + "/sim/" + f, "sim_" + f[:-4], ["g++", "-O1", "-g1", "-w", "-I", build.VERIF + "/sim"] + inc)
def one(j):
    s, o, flags, stamp, key = j
    subprocess.run(flags + ["-c", s, "-o", o], check=True)
    if "/tool_" in o:
        build.rename_main(o, o + "2", "tool_%s_main" % os.path.basename(o)[5:-2])
        os.rename(o + "2", o)
    open(stamp, "w").write(key)
with concurrent.futures.ThreadPoolExecutor(8) as ex:
    list(ex.map(one, jobs))
subprocess.run(["g++", "--coverage"] + objs + ["-lfmt", "-ldl", "-o", W + "/sim"], check=True)
def go(p):
    r = subprocess.run([W + "/sim", "run", "--property", p, "--seed", "7", "--count", runs, "--tier", tier,
                        "--out", W + "/" + p + ".json"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    return p, r.returncode, r.stderr.decode()[-300:]
with concurrent.futures.ThreadPoolExecutor(8) as ex:
    for p, rc, err in ex.map(go, props):
        if rc:
            print(p, "ended with", rc, err)
hit = {}
for o in objs:
    if "/sim_" in o:
        continue
    subprocess.run(["gcov", "-p", "-x", o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
for f in os.listdir("."):
    if not f.endswith(".gcov"):
        continue
    text = open(f, errors="replace").read()
    m = re.search(r"-:\s+0:Source:(\S+)", text)
    if not m or not os.path.realpath(m.group(1)).startswith(build.REPO + "/bnl"):
        continue
    src = os.path.realpath(m.group(1))
    d = hit.setdefault(src, {})
    for l in text.splitlines():
        m = re.match(r"\s*([^:]+):\s*(\d+):(.*)", l)
        if not m or m.group(1) == "-" or m.group(2) == "0":
            continue
        n = int(m.group(2))
        c = 0 if m.group(1).startswith(("#", "=")) else 1
        d[n] = (max(c, d.get(n, (0, ""))[0]), m.group(3))
total = cov = 0
for src in sorted(hit):
    d = hit[src]
    miss = [n for n in sorted(d) if not d[n][0]]
    total += len(d); cov += len(d) - len(miss)
    if miss:
        print("%s: %d of %d lines" % (os.path.relpath(src, build.REPO), len(d) - len(miss), len(d)))
        for n in miss:
            print("   %5d %s" % (n, d[n][1]))
print("covered %d of %d lines" % (cov, total))
