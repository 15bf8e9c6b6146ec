#!/usr/bin/env python3
"""Build the simulator from /repo's current working tree.

Everything lands in a cache directory keyed by the content of all inputs, so a
change in /repo or in /verif/sim is always rebuilt and nothing stale is used.
"""
import concurrent.futures
import hashlib
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
DEPS = "/opt/vp/deps"
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))

SAN = ["-fsanitize=address",
       "-fsanitize=shift,signed-integer-overflow,bounds,null,return,unreachable",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
# Uninitialised locals get a fixed pattern (and ASan fills fresh heap memory), so
# that a read of uninitialised memory is as repeatable as everything else.
BASE = ["-O1", "-g1", "-w", "-ftrivial-auto-var-init=pattern"]


class BuildError(Exception):
    pass


def stub_exports():
    d = os.path.join(BUILD, "stub")
    for lib in ("base", "http3", "log", "quic"):
        p = os.path.join(d, "bnl", lib)
        os.makedirs(p, exist_ok=True)
        f = os.path.join(p, "export.hpp")
        text = ("#pragma once\n#define BNL_%s_EXPORT\n#define BNL_%s_NO_EXPORT\n"
                % (lib.upper(), lib.upper()))
        if not os.path.exists(f) or open(f).read() != text:
            open(f, "w").write(text)
    return d


def lib_sources(lib):
    """The sources the library's own CMakeLists.txt names (plus nothing else)."""
    root = os.path.join(REPO, "bnl", lib)
    text = open(os.path.join(root, "CMakeLists.txt")).read()
    text = re.sub(r"#[^\n]*", "", text)
    found = []
    for m in re.finditer(r"target_sources\(\s*bnl-%s\s+(.*?)\)" % lib, text, re.S):
        for s in m.group(1).split():
            f = os.path.join(root, s)
            if s.endswith(".cpp") and os.path.exists(f) and f not in found:
                found.append(f)
    if not found:
        for d, _, fs in os.walk(os.path.join(root, "src")):
            found += [os.path.join(d, f) for f in sorted(fs)
                      if f.endswith(".cpp") and not f.endswith("_generated.cpp")]
    if not found:
        raise BuildError("no sources for " + lib)
    return found


def include_flags():
    flags = ["-include", DEPS + "/compat/compat.hpp"]
    for lib in ("base", "http3", "log", "quic"):
        flags += ["-I", os.path.join(REPO, "bnl", lib, "include")]
    flags += ["-I", stub_exports(), "-isystem", DEPS + "/outcome",
              "-isystem", DEPS + "/xxhash", "-DXXH_INLINE_ALL", "-DFMT_SHARED"]
    return flags


def tree_digest(paths, extra):
    h = hashlib.sha256()
    for e in extra:
        h.update(e.encode() + b"\0")
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds.sort()
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            if f.endswith((".cpp", ".hpp", ".h", ".inc", ".txt", ".c")):
                h.update(f.encode() + b"\0")
                with open(f, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def compile_all(jobs, workers=None):
    """jobs: list of (src, obj, argv)"""
    def one(job):
        src, obj, argv = job
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + ".tmp%d" % os.getpid()
        r = subprocess.run(argv + ["-c", src, "-o", tmp], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
        os.rename(tmp, obj)
        return obj
    with concurrent.futures.ThreadPoolExecutor(workers or os.cpu_count()) as ex:
        return list(ex.map(one, jobs))


SIM_SOURCES = ["core.cpp", "ref.cpp", "gen.cpp", "h3.cpp", "exchange.cpp",
               "ref_recv.cpp", "peer.cpp", "mem.cpp", "codec.cpp", "rounds.cpp", "senders.cpp", "vdisk.cpp", "tools.cpp",
               "logging.cpp", "worlds.cpp", "main.cpp"]


def rename_main(src, dst, name):
    """Make a program's object linkable beside others: its main gets another
    name and its other strong symbols become local."""
    r = subprocess.run(["nm", "--defined-only", "-g", src], stdout=subprocess.PIPE, text=True)
    local = [l.split()[-1] for l in r.stdout.splitlines()
             if l.split()[-2] in "TDBR" and l.split()[-1] != "main"]
    tmp = dst + ".tmp%d" % os.getpid()
    argv = ["objcopy", "--redefine-sym", "main=" + name]
    for s in local:
        argv += ["--localize-symbol", s]
    r = subprocess.run(argv + [src, tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if r.returncode != 0:
        raise BuildError("objcopy failed: " + r.stdout)
    os.rename(tmp, dst)


# What the logger asks for the time, and gets from the run.
CLOCKS = {"time": "sim_time", "gettimeofday": "sim_gettimeofday",
          "clock_gettime": "sim_clock_gettime",
          "_ZNSt6chrono3_V212system_clock3nowEv": "sim_system_clock_now"}


def rename_clocks(src, dst):
    tmp = dst + ".tmp%d" % os.getpid()
    argv = ["objcopy"]
    for name, to in CLOCKS.items():
        argv += ["--redefine-sym", "%s=%s" % (name, to)]
    r = subprocess.run(argv + [src, tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if r.returncode != 0:
        raise BuildError("objcopy failed: " + r.stdout)
    os.rename(tmp, dst)


def build_sim():
    cxx = os.environ.get("SIM_CXX", "g++")
    inc = include_flags()
    simdir = os.path.join(VERIF, "sim")
    hdr = [os.path.join(REPO, "bnl", l, "include") for l in ("base", "http3", "log", "quic")]
    sources = lib_sources("base") + lib_sources("http3") + lib_sources("log")
    digest = tree_digest([os.path.join(REPO, "bnl", "base"),
                          os.path.join(REPO, "bnl", "http3"),
                          os.path.join(REPO, "bnl", "log"),
                          simdir, DEPS + "/compat"],
                         [" ".join(SAN + BASE), cxx])
    out = os.path.join(BUILD, "sim-" + digest)
    binary = os.path.join(out, "sim")
    if os.path.exists(binary):
        return binary
    hd = tree_digest(hdr + [DEPS + "/compat"], [" ".join(SAN + BASE), cxx])
    objdir = os.path.join(BUILD, "obj")
    jobs, objs, clocks = [], [], []
    flags = [cxx] + BASE + SAN + inc
    for s in sources:
        # The whole src dir is part of the key: sources include one another.
        key = tree_digest([s, os.path.join(REPO, "bnl", "http3", "src", "codec", "qpack")
                           if "/qpack/" in s else s], [hd])
        # any local non-header include (e.g. *_generated.cpp or a helper)
        text = open(s).read()
        local = [os.path.join(os.path.dirname(s), i)
                 for i in re.findall(r'#include\s+"([^"]+)"', text)]
        key = tree_digest([l for l in local if os.path.exists(l)], [key])
        clock = s.startswith(os.path.join(REPO, "bnl", "log") + os.sep)
        o = os.path.join(objdir, key + ("-clock.o" if clock else ".o"))
        objs.append(o)
        if not os.path.exists(o):
            if clock:
                clocks.append(o)
            jobs.append((s, o + ".real.o" if clock else o, flags))
    tools = []
    for action in ("encode", "decode"):
        s = os.path.join(REPO, "bnl", "http3", "app", "qpack", "qpack-interop-%s.cpp" % action)
        key = tree_digest([os.path.dirname(s)], [hd, action])
        o = os.path.join(objdir, "tool-" + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o + ".main.o", flags + ["-U_FORTIFY_SOURCE"]))
            tools.append((action, o))
    simkey = tree_digest([os.path.join(simdir, f) for f in os.listdir(simdir)
                          if f.endswith((".hpp", ".inc"))], [hd])
    for f in SIM_SOURCES:
        s = os.path.join(simdir, f)
        o = os.path.join(objdir, "sim-" + tree_digest([s], [simkey]) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o, flags + ["-I", simdir]))
    # Longest first.
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    compile_all(jobs)
    for o in clocks:
        rename_clocks(o + ".real.o", o)
    for action, o in tools:
        rename_main(o + ".main.o", o, "tool_%s_main" % action)
    os.makedirs(out, exist_ok=True)
    tmp = binary + ".tmp%d" % os.getpid()
    r = subprocess.run([cxx] + SAN + objs + ["-lfmt", "-ldl", "-o", tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("link failed:\n" + r.stdout[-4000:])
    os.rename(tmp, binary)
    return binary


# The QUIC client and the program around it: another binary, so that a tree in
# which they do not compile leaves every other check able to answer.
SIMQ_SHARED = ["core.cpp", "ref.cpp", "gen.cpp", "ref_recv.cpp", "main.cpp"]
SIMQ_SOURCES = ["prim.cpp", "engine.cpp", "tls.cpp", "ssl.cpp", "ngtcp2.cpp", "server.cpp",
                "quic_world.cpp", "qworlds.cpp"]
SIMP_SOURCES = ["prim.cpp", "engine.cpp", "tls.cpp", "ssl.cpp", "ngtcp2.cpp", "server.cpp",
                "program.cpp", "pworlds.cpp"]
# What the program calls of the operating system, and gets from the run.
SIMP_CALLS = ["socket", "connect", "setsockopt", "getsockopt", "getsockname", "getpeername",
              "ioctl", "send", "recv", "write", "read", "close", "getaddrinfo", "freeaddrinfo",
              "sigprocmask"]


def program_object(objs, dst):
    """The program's objects as one, whose main and system calls have other
    names and whose other symbols are its own."""
    whole = dst + ".whole%d.o" % os.getpid()
    r = subprocess.run(["ld", "-r"] + objs + ["-o", whole], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("ld -r failed: " + r.stdout)
    r = subprocess.run(["nm", "--defined-only", "-g", whole], stdout=subprocess.PIPE, text=True)
    argv = ["objcopy", "--redefine-sym", "main=endpoint_main"]
    for l in r.stdout.splitlines():
        if l.split()[-2] in "TDBR" and l.split()[-1] != "main":
            argv += ["--localize-symbol", l.split()[-1]]
    for c in SIMP_CALLS:
        argv += ["--redefine-sym", "%s=ep_%s" % (c, c)]
    tmp = dst + ".tmp%d" % os.getpid()
    r = subprocess.run(argv + [whole, tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    os.unlink(whole)
    if r.returncode != 0:
        raise BuildError("objcopy failed: " + r.stdout)
    os.rename(tmp, dst)


def program_sources():
    """The sources of the client program, as the library's CMakeLists.txt names them."""
    root = os.path.join(REPO, "bnl", "http3")
    text = re.sub(r"#[^\n]*", "", open(os.path.join(root, "CMakeLists.txt")).read())
    found = []
    for s in re.findall(r"app/endpoint/[^\s)]*\.cpp", text):
        f = os.path.join(root, s)
        if os.path.exists(f) and f not in found:
            found.append(f)
    if not found:
        for d, _, fs in os.walk(os.path.join(root, "app", "endpoint")):
            found += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".cpp")]
    return found


def build_simq(program=False):
    """The QUIC client (simq), or the whole client program on top of it (simp)."""
    name = "simp" if program else "simq"
    cxx = os.environ.get("SIM_CXX", "g++")
    inc = include_flags()
    simdir = os.path.join(VERIF, "sim")
    qdir = os.path.join(simdir, "quic")
    hdr = [os.path.join(REPO, "bnl", l, "include") for l in ("base", "http3", "log", "quic")]
    qsrc = os.path.join(REPO, "bnl", "quic", "src")
    digest = tree_digest([os.path.join(REPO, "bnl", l) for l in ("base", "http3", "log", "quic")] +
                         [simdir, DEPS + "/compat"], [" ".join(SAN + BASE), cxx, name])
    out = os.path.join(BUILD, name + "-" + digest)
    binary = os.path.join(out, name)
    if os.path.exists(binary):
        return binary
    flags = [cxx] + BASE + SAN + inc
    qflags = flags + ["-I", os.path.join(qdir, "include"), "-I", qsrc]
    hd = tree_digest(hdr + [DEPS + "/compat"], [" ".join(SAN + BASE), cxx])
    objdir = os.path.join(BUILD, "obj")
    jobs, objs = [], []

    def add(s, key, argv, prefix=""):
        o = os.path.join(objdir, prefix + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o, argv))

    for s in lib_sources("base") + lib_sources("http3"):
        key = tree_digest([s, os.path.join(REPO, "bnl", "http3", "src", "codec", "qpack")
                           if "/qpack/" in s else s], [hd])
        text = open(s).read()
        local = [os.path.join(os.path.dirname(s), i)
                 for i in re.findall(r'#include\s+"([^"]+)"', text)]
        key = tree_digest([l for l in local if os.path.exists(l)], [key])
        add(s, key, flags)
    clocks = []
    for s in lib_sources("log") if program else []:
        key = tree_digest([s], [hd])
        o = os.path.join(objdir, key + "-clock.o")
        objs.append(o)
        if not os.path.exists(o):
            clocks.append(o)
            jobs.append((s, o + ".real.o", flags))
    stand_ins = tree_digest([os.path.join(qdir, "include")], [hd])
    for s in lib_sources("quic"):
        add(s, tree_digest([s, qsrc], [stand_ins]), qflags, "quic-")
    simkey = tree_digest([os.path.join(simdir, f) for f in os.listdir(simdir)
                          if f.endswith((".hpp", ".inc"))], [hd])
    for f in SIMQ_SHARED:
        s = os.path.join(simdir, f)
        add(s, tree_digest([s], [simkey]), flags + ["-I", simdir], "sim-")
    qkey = tree_digest([os.path.join(qdir, f) for f in os.listdir(qdir) if f.endswith(".hpp")],
                       [simkey, stand_ins])
    for f in SIMP_SOURCES if program else SIMQ_SOURCES:
        s = os.path.join(qdir, f)
        add(s, tree_digest([s], [qkey]), qflags + ["-I", simdir, "-I", qdir], "simq-")
    parts, whole = [], None
    if program:
        app = os.path.join(REPO, "bnl", "http3", "app", "endpoint")
        key = tree_digest([app], [hd, stand_ins])
        whole = os.path.join(objdir, "program-" + key + ".o")
        if not os.path.exists(whole):
            for s in program_sources():
                o = os.path.join(objdir, "part-" + tree_digest([s], [key]) + ".o")
                parts.append(o)
                if not os.path.exists(o):
                    jobs.append((s, o, qflags + ["-I", app, "-U_FORTIFY_SOURCE"]))
        objs.append(whole)
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    compile_all(jobs)
    for o in clocks:
        rename_clocks(o + ".real.o", o)
    if parts:
        program_object(parts, whole)
    os.makedirs(out, exist_ok=True)
    tmp = binary + ".tmp%d" % os.getpid()
    r = subprocess.run([cxx] + SAN + objs + ["-lfmt", "-ldl", "-o", tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("link failed:\n" + r.stdout[-4000:])
    os.rename(tmp, binary)
    return binary


if __name__ == "__main__":
    import time
    t = time.time()
    try:
        if "quic" not in sys.argv[1:]:
            print(build_sim(), "%.1fs" % (time.time() - t))
    except BuildError as e:
        sys.stderr.write(str(e) + "\n")
        sys.exit(2)
    t = time.time()
    try:
        print(build_simq(), "%.1fs" % (time.time() - t))
        t = time.time()
        print(build_simq(True), "%.1fs" % (time.time() - t))
    except BuildError as e:
        # A tree whose QUIC part does not compile still gets every other check.
        sys.stderr.write(str(e) + "\n")
        sys.exit(2 if "quic" in sys.argv[1:] else 0)
