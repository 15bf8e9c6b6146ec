#!/usr/bin/env python3
"""Mass mutation: mutate.py FILE.py [ID ...]

FILE.py defines M: a list of (id, properties, [(file, old, new)]).  Each is
applied to a scratch copy, built, run through the stable tests, and given to
the checks of its properties.  Nothing is kept but the printed table.
"""
import importlib.util, os, sys, time
sys.argv_saved = sys.argv
HERE = os.path.dirname(os.path.abspath(__file__))


def load(path, name):
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


src = open(os.path.join(HERE, "plant.py")).read().replace("\nmain()\n", "\n")
plant = type(sys)("plant")
plant.__file__ = os.path.join(HERE, "plant.py")
exec(compile(src, plant.__file__, "exec"), plant.__dict__)
plant.S = S = "/tmp/sm"
plant.prepare(S)
m = load(sys.argv[1], "mutants")
ids = sys.argv[2:]
for mid, props, edits in m.M:
    if ids and mid not in ids:
        continue
    plant.sh("git -C %s checkout -q -- ." % S)
    bad = None
    for f, old, new in edits:
        path = os.path.join(S, f)
        t = open(path).read()
        if t.count(old) != 1:
            bad = "edit of %s matches %d times" % (f, t.count(old))
            break
        open(path, "w").write(t.replace(old, new))
    if bad:
        print(mid, "BAD", bad, flush=True)
        continue
    missing, out = plant.tests(S)
    if missing:
        print(mid, "TESTS", len(missing), missing[:2], out[-800:] if "error:" in out else "", flush=True)
        continue
    for prop in props:
        t0 = time.time()
        rc, out = plant.sh("python3 %s/check.py %s --tier quick --seed 1" % (plant.V, prop),
                           env={"SIM_REPO": S, "SIM_BUILD": "/tmp/smb"})
        line = [l for l in out.splitlines() if "class=" in l] or \
               [l for l in out.splitlines() if "VIOLATION" in l]
        print(mid, prop, "CAUGHT" if rc == 1 and line else "MISSED rc=%d" % rc,
              "%.0fs" % (time.time() - t0), (line or [out[-200:]])[0][:200], flush=True)
plant.sh("git -C %s checkout -q -- ." % S)
