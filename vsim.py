#!/usr/bin/env python3
"""Driver: builds the simulator from /repo's working tree and runs a property's check.

  vsim.py build                 build everything
  vsim.py check C01             run the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)
  vsim.py replay FILE           replay a violation file
  vsim.py run ARGS...           pass ARGS to the simulator binary of the property
"""
import hashlib, json, os, subprocess, sys, time, concurrent.futures as cf, re, fnmatch

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VSIM_REPO", "/repo")
BUILD = os.environ.get("VSIM_BUILD", os.path.join(HERE, "build"))
JOBS = int(os.environ.get("VSIM_JOBS", os.cpu_count() or 8))
CXX = "g++"
COMMON = ["-std=gnu++17", "-w", "-g0", "-O1", "-DNDEBUG", "-DHAS_UNCAUGHT_EXCEPTIONS=1", "-DPDFMM_STATIC",
          "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer", "-pipe"]
FLAVORS = {
    # the simulator proper: AddressSanitizer decides memory safety on every run
    "asan": ["-fsanitize=address"],
    # preemption points on every control-flow edge, for the thread scheduler
    "cov": ["-fsanitize=address", "-DSIM_COV=1"],
}
COV_LIB = ["-fsanitize-coverage=trace-pc"]
LIBS = ["-lssl", "-lcrypto", "-lfontconfig", "-lfreetype", "-lxml2", "-lpng", "-ltiff", "-ljpeg", "-lz", "-lidn", "-lpthread", "-ldl"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def read(p):
    with open(p, "rb") as f:
        return f.read()

def walk(top, exts):
    out = []
    for d, dirs, files in os.walk(top):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out

def config_header():
    """pdfmm_config.h as CMake would make it here, all optional libraries on."""
    src = read(os.path.join(REPO, "src/pdfmm/pdfmm_config.h.in")).decode()
    top = read(os.path.join(REPO, "CMakeLists.txt")).decode()
    for k in ("MAJOR", "MINOR", "PATCH"):
        m = re.search(r'PDFMM_VERSION_%s\s+"?(\d+)' % k, top)
        src = src.replace("@PDFMM_VERSION_%s@" % k, m.group(1) if m else "0")
    def cd(m):
        return ("/* #undef %s */" if m.group(1) == "PDFMM_HAVE_WIN32GDI" else "#define %s") % m.group(1)
    src = re.sub(r'#cmakedefine\s+(\w+).*', cd, src)
    d = os.path.join(BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "pdfmm_config.h")
    if not os.path.exists(p) or read(p).decode() != src:
        with open(p, "w") as f:
            f.write(src)
    return d

def build(flavor, prop=None):
    t0 = time.time()
    gen = config_header()
    inc = ["-I" + gen, "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "3rdparty"),
           "-I/usr/include/freetype2", "-I/usr/include/libxml2"]
    flags = COMMON + FLAVORS[flavor] + inc
    headers = walk(os.path.join(REPO, "src"), (".h", ".hpp", ".inc", ".in")) + walk(os.path.join(REPO, "3rdparty"), (".h", ".hpp", ".inc", ".cpp"))
    hh = hashlib.sha256()
    hh.update(sh([CXX, "--version"]).stdout.encode())
    hh.update("\0".join(flags).encode())
    hh.update(read(os.path.join(gen, "pdfmm_config.h")))
    for h in headers:
        hh.update(os.path.relpath(h, REPO).encode()); hh.update(read(h))
    base = hh.hexdigest()
    simh = hashlib.sha256()
    for h in walk(os.path.join(HERE, "sim"), (".h",)):
        simh.update(read(h))
    simh = simh.hexdigest()
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    pdir = os.path.join(BUILD, "pch-%s-%s" % (flavor, base[:16]))
    pch = os.path.join(pdir, "pch.h")
    lib = [p for d in ("common", "base", "contrib", "private") for p in walk(os.path.join(REPO, "src/pdfmm", d), (".cpp",))]
    lib += walk(os.path.join(REPO, "3rdparty/pdfium"), (".cpp",))
    har = [p for p in walk(os.path.join(HERE, "sim"), (".cpp",))
           if (os.path.basename(p) in ("core.cpp", "world.cpp", "docutil.cpp", "rich.cpp") or
               (("threads" in os.path.basename(p)) == (flavor == "cov") and (prop is None or ('"%s"' % prop).encode() in read(p))))]
    jobs = []
    for p in lib + har:
        isLib = p in lib
        extra = (COV_LIB if (isLib and flavor == "cov") else [])
        key = hashlib.sha256((base + ("" if isLib else simh) + " ".join(extra)).encode() + os.path.basename(p).encode() + read(p)).hexdigest()[:24]
        o = os.path.join(odir, "%s-%s-%s.o" % (flavor, os.path.basename(p)[:-4], key))
        jobs.append((p, o, isLib, extra, os.path.getsize(p)))
    todo = [j for j in jobs if not os.path.exists(j[1])]
    if todo:
        if not os.path.exists(pch + ".ok"):
            os.makedirs(pdir, exist_ok=True)
            with open(pch, "w") as f:
                f.write("#include <pdfmm/private/PdfDeclarationsPrivate.h>\n#include <pdfmm/base/PdfDocument.h>\n")
            r = sh([CXX] + flags + ["-x", "c++-header", pch, "-o", pch + ".gch"])
            if r.returncode:
                sys.stderr.write(r.stdout)
                raise SystemExit("build failed: precompiled header")
            open(pch + ".ok", "w").close()
        def comp(j):
            p, o, isLib, extra, _ = j
            tmp = o + ".tmp%d.o" % os.getpid()
            # the harness includes private headers nowhere, but shares the precompiled public ones
            r = sh([CXX] + flags + extra + ["-include", pch, "-c", p, "-o", tmp])
            if r.returncode == 0:
                os.rename(tmp, o)
            return p, r
        todo.sort(key=lambda j: -(j[4] * (3 if not j[2] else 1)))
        bad = False
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for p, r in ex.map(comp, todo):
                if r.returncode:
                    sys.stderr.write("FAILED %s\n%s\n" % (p, r.stdout[:6000]))
                    bad = True
        if bad:
            raise SystemExit("build failed")
    lk = hashlib.sha256("\0".join(sorted(j[1] for j in jobs)).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "sim-%s-%s" % (flavor, lk))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = sh([CXX] + FLAVORS[flavor] + ["-o", tmp] + [j[1] for j in jobs] + LIBS)
        if r.returncode:
            sys.stderr.write(r.stdout[-6000:])
            raise SystemExit("link failed")
        os.rename(tmp, exe)
    prune()
    return exe, time.time() - t0

def prune(limit=6 << 30):
    """Keep the cache bounded: oldest files first."""
    files = []
    for d, _, fs in os.walk(BUILD):
        for f in fs:
            p = os.path.join(d, f)
            try:
                st = os.stat(p)
                files.append((st.st_mtime, st.st_size, p))
            except OSError:
                pass
    total = sum(f[1] for f in files)
    for m, s, p in sorted(files):
        if total <= limit:
            break
        if time.time() - m < 3600:
            continue
        try:
            os.unlink(p); total -= s
        except OSError:
            pass

def flavor_of(prop):
    return "cov" if prop == "C13" else "asan"

def env():
    e = dict(os.environ)
    for k in ("CXXFLAGS", "CFLAGS", "LDFLAGS", "MALLOC_PERTURB_"):
        e.pop(k, None)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=1024:detect_odr_violation=0:alloc_dealloc_mismatch=0:handle_abort=1:handle_segv=1:symbolize=1:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=6"
    e["LC_ALL"] = "C.UTF-8"
    e["TZ"] = "UTC"
    return e

META = {}
def meta(prop):
    if not META:
        META.update(json.load(open(os.path.join(HERE, "checks.json"))))
    return META[prop]

def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    exe, tb = build(flavor_of(prop), prop)
    m = meta(prop)
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    out = os.path.join(BUILD, "result-%s-%d.json" % (prop, os.getpid()))
    budget = float(os.environ.get("VSIM_TIME", "300" if tier == "quick" else "3600"))
    cmd = [exe, "run", prop, "--seed", str(seed), "--tier", tier, "--jobs", str(JOBS), "--time", str(budget),
           "--out", out, "--replays", replays, "--known", os.path.join(HERE, "known_findings.txt")]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env(), cwd=HERE)
    sys.stderr.write(r.stderr[-4000:])
    confirmed, unconfirmed = [], []
    for line in r.stdout.splitlines():
        if line.startswith("KNOWN-FINDING:"):
            print(line)
        elif line.startswith("CANDIDATE "):
            path = re.search(r"replay=(\S+)", line).group(1)
            ok = True
            for _ in range(2):
                rr = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env(), cwd=HERE)
                ok = ok and "REPLAY-MATCH" in rr.stdout
            (confirmed if ok else unconfirmed).append((path, line))
        elif line.startswith("SUMMARY"):
            print(line)
    res = json.load(open(out)) if os.path.exists(out) else None
    if res is None:
        sys.stderr.write(r.stdout[-3000:])
        print("ERROR: the simulator gave no result (exit %d)" % r.returncode)
        return 3
    os.unlink(out)
    wall = time.time() - t0
    evidence(prop, tier, seed, m, res, wall, tb, len(confirmed))
    for path, line in confirmed:
        print("  " + line)
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if confirmed:
        return 1
    if unconfirmed or r.returncode not in (0,):
        print("ERROR: a violation could not be reproduced: %s" % unconfirmed)
        return 2
    return 0

def evidence(prop, tier, seed, m, res, wall, tb, nviol):
    sw = max(res["wall"], 1e-3)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": m.get("level", "exploration"),
        "coverage": {
            "evaluations": res["runs"],
            "distinct_nontrivial": res["nontrivial"],
            "rule": m["rule"] + " One run = one seed = one plan of operations and faults executed in its own process; non-trivial: at least 5 recorded events; distinct: different event-log hash.",
            "samples": res["samples"],
            "planned_runs": res["planned"],
            "runs_per_hour": round(res["runs"] / sw * 3600),
            "seeds_per_hour": round(res["runs"] / sw * 3600),
            "simulated_steps": res["steps"],
            "simulated_clock_seconds": res["clock"],
            "recorded_events": res["events"],
            "distinct_event_logs": res["distinct_hashes"],
            "distinct_states": res["distinct_states"],
            "state_measure": m.get("state_measure", "hash of the model state (objects, pages, entries) at checkpoints"),
            "faults_fired": res["faults"],
            "runs_with_fault": res["faultRuns"],
            "probes_reached": res["probes"],
            "runs_per_scenario": res["scenarios"],
            "real_code": m.get("real", "all of pdfmm (compiled from the working tree), zlib, libpng, libjpeg, libtiff, libxml2, OpenSSL, freetype, libstdc++"),
            "stubs": m.get("stubs", "clock, random numbers, allocator limits, storage devices and file system calls are simulated"),
            "search_wall_s": round(res["wall"], 1), "build_wall_s": round(tb, 1),
        },
        "assumptions": m.get("assumptions", []),
        "wall_s": round(wall, 1),
        "violations": nviol,
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__); return 3
    if a[0] == "build":
        for fl in (a[1:2] or FLAVORS):
            exe, t = build(fl, a[2] if len(a) > 2 else None)
            print(exe, "%.1fs" % t)
        return 0
    if a[0] == "clean-stale":
        # every check builds what it needs by itself; only make sure the tools are there
        for t in (CXX,):
            if sh([t, "--version"]).returncode:
                print("missing " + t); return 3
        os.makedirs(BUILD, exist_ok=True)
        return 0
    if a[0] == "check":
        return check(a[1])
    if a[0] == "replay":
        prop = re.search(r"^prop (\S+)", open(a[1]).read(), re.M).group(1)
        exe, _ = build(flavor_of(prop), prop)
        return subprocess.run([exe, "replay"] + a[1:], env=env(), cwd=os.getcwd()).returncode
    if a[0] == "run":
        exe, _ = build(flavor_of(a[2] if len(a) > 2 else ""), a[2] if len(a) > 2 else None)
        return subprocess.run([exe] + a[1:], env=env(), cwd=HERE).returncode
    print(__doc__)
    return 3

if __name__ == "__main__":
    sys.exit(main())
