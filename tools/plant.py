#!/usr/bin/env python3
"""Author planted bugs: plant.py FILE.py [ID ...]

FILE.py defines PLANTS: a list of dicts with id, property, edits [(file, old,
new)], demo (C++ text of main's body, or a full demo.sh under "sh"), needs,
breaks.  For each: make the patch in a scratch copy of /repo, build it, run its
stable tests, run the demonstration on the changed and on a clean copy, then
run the property's check on the changed copy.  Confirmed ones are written to
/verif/seeded/ID, whether or not the check catches them.
"""
import importlib.util, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, C = "/tmp/sb", "/tmp/sc"        # changed copy, clean copy
SEED = os.path.join(V, "seeded")


def sh(cmd, cwd=None, timeout=900, env=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", timeout=timeout,
                       env=dict(os.environ, **(env or {})))
    return r.returncode, r.stdout


def prepare(d):
    head = sh("git -C /repo rev-parse HEAD")[1].strip()
    mark = d + ".head"
    if os.path.exists(d) and os.path.exists(mark) and open(mark).read() == head:
        sh("git -C %s checkout -q -- ." % d)
        return
    shutil.rmtree(d, ignore_errors=True)
    sh("cp -a /repo %s && rm -f %s/_build/CMakeCache.txt" % (d, d))
    os.makedirs(d + "-vp", exist_ok=True)
    for f in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + f).read().replace("/repo", d).replace("/opt/vp/build.sh", d + "-vp/build.sh")
        open(d + "-vp/" + f, "w").write(t)
    rc, out = sh("bash %s-vp/build.sh" % d)
    assert rc == 0, out[-2000:]
    open(mark, "w").write(head)


def tests(d):
    rc, out = sh("bash %s-vp/test.sh /tmp/w/out.json" % d)
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base["stable"])
    got = json.load(open("/tmp/w/out.json"))
    return sorted(want - set(got["passed"])), out


def main():
    spec = importlib.util.spec_from_file_location("plants", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = [a for a in sys.argv[2:] if not a.startswith("-")]
    nocheck = "--nocheck" in sys.argv
    prepare(S)
    prepare(C)
    for p in m.PLANTS:
        if ids and p["id"] not in ids:
            continue
        sh("git -C %s checkout -q -- ." % S)
        bad = None
        for f, old, new in p["edits"]:
            path = os.path.join(S, f)
            t = open(path).read()
            if t.count(old) != 1:
                bad = "edit of %s matches %d times" % (f, t.count(old))
                break
            open(path, "w").write(t.replace(old, new))
        if bad:
            print(p["id"], "BAD", bad, flush=True)
            continue
        patch = sh("git -C %s diff" % S)[1]
        missing, out = tests(S)
        if missing:
            print(p["id"], "TESTS FAIL", missing[:5], out[-1500:] if "error" in out else "", flush=True)
            continue
        d = "/tmp/w/demo"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        if "sh" in p:
            open(d + "/demo.sh", "w").write(p["sh"])
            for name, text in p.get("files", {}).items():
                os.makedirs(os.path.dirname(d + "/" + name), exist_ok=True)
                open(d + "/" + name, "w").write(text)
        else:
            open(d + "/demo.sh", "w").write(m.DEMO_SH)
            open(d + "/demo.cpp", "w").write(m.DEMO_HEAD + p["demo"])
        os.chmod(d + "/demo.sh", 0o755)
        rc1, o1 = sh("bash %s/demo.sh" % d, cwd=S, timeout=300)
        rc0, o0 = sh("bash %s/demo.sh" % d, cwd=C, timeout=300)
        if rc0 != 0 or rc1 == 0:
            print(p["id"], "DEMO clean=%d patched=%d" % (rc0, rc1), o0[-1500:], "----", o1[-800:], flush=True)
            continue
        t = os.path.join(SEED, p["id"])
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(d, t)
        open(t + "/patch.diff", "w").write(patch)
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]},
                  open(t + "/meta.json", "w"), indent=1)
        if nocheck:
            print(p["id"], "ok", o1.strip()[-200:].replace("\n", " | "), flush=True)
            continue
        for prop in [p["property"]] + list(p.get("also", [])):
            t0 = time.time()
            rc, out = sh("python3 %s/check.py %s --tier quick --seed 1" % (V, prop),
                         env={"SIM_REPO": S, "SIM_BUILD": "/tmp/sbb"})
            line = [l for l in out.splitlines() if "VIOLATION" in l or "class=" in l]
            print(p["id"], prop, "rc1=%d" % rc1, "CAUGHT" if rc == 1 and line else "MISSED rc=%d" % rc,
                  "%.0fs" % (time.time() - t0), (line or [out[-300:]])[0][:220], flush=True)
    sh("git -C %s checkout -q -- ." % S)


main()
