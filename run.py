#!/usr/bin/env python3
"""Build a check's harness against /repo's working tree, run it, write evidence.

usage: run.py ID [quick|thorough] [--replay FILE] [--verbose] [--only SUB] [--scale X] [--seed N]
"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time, signal
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "common"))
from checks import CHECKS, DEFAULTS

LIBD = "/usr/lib/x86_64-linux-gnu"
INC = ["-I" + REPO, "-I" + VERIF + "/common/config", "-I" + VERIF + "/common",
       "-isystem", "/opt/dune/prefix/include", "-isystem", "/usr/include/superlu",
       "-isystem", "/usr/include/suitesparse", "-isystem", LIBD + "/openmpi/include",
       "-isystem", LIBD + "/openmpi/include/openmpi", "-isystem", "/usr/include/arpack++"]
DEF = """-DHAVE_ARPACKPP=1 -DHAVE_CONFIG_H -DHAVE_GMP=1 -DHAVE_METIS=1 -DHAVE_MPI=1 -DHAVE_PARMETIS=1
-DHAVE_QUADMATH=1 -DHAVE_SUITESPARSE_AMD=1 -DHAVE_SUITESPARSE_BTF=1 -DHAVE_SUITESPARSE_CAMD=1
-DHAVE_SUITESPARSE_CCOLAMD=1 -DHAVE_SUITESPARSE_CHOLMOD=1 -DHAVE_SUITESPARSE_COLAMD=1
-DHAVE_SUITESPARSE_KLU=1 -DHAVE_SUITESPARSE_LDL=1 -DHAVE_SUITESPARSE_SPQR=1
-DHAVE_SUITESPARSE_UMFPACK=1 -DHAVE_SUPERLU=1 -DMETIS_API_VERSION=5 -DMPICH_SKIP_MPICXX=1 -DMPIPP_H
-DMPI_NO_CPPBIND=1 -DOMPI_SKIP_MPICXX=1 -DTBB_USE_DEBUG -D_GLIBCXX_USE_FLOAT128 -D_MPICC_H""".split()
LINK = ["-Wl,-rpath," + LIBD + "/openmpi/lib", "/opt/dune/prefix/lib/libdunecommon.a"] + \
    [LIBD + "/lib%s.so" % l for l in "arpack++ arpack superlu".split()] + ["/usr/lib/libparmetis.so"] + \
    [LIBD + "/lib%s.so" % l for l in "metis gmpxx openblas".split()] + ["-lm", "-ldl", LIBD + "/libtbb.so.12.11"] + \
    [LIBD + "/lib%s.so" % l for l in "ldl spqr umfpack cholmod amd colamd camd ccolamd suitesparseconfig".split()] + \
    [LIBD + "/openmpi/lib/libmpi.so", "-lquadmath", LIBD + "/libgmp.so"]
CXX = ["g++", "-std=gnu++20", "-fPIE", "-fext-numeric-literals", "-w", "-D_GLIBCXX_ASSERTIONS"]
ENV = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
           OMPI_MCA_btl="self,vader", OMPI_MCA_plm="isolated", OMPI_MCA_rmaps_base_oversubscribe="1",
           OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_mpi_yield_when_idle="1",
           OMPI_MCA_btl_vader_single_copy_mechanism="none",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           ASAN_OPTIONS="detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=190:exitcode=99:"
                        "allocator_may_return_null=1:detect_odr_violation=0:"
                        "handle_abort=0:quarantine_size_mb=16:detect_stack_use_after_return=0")

def compile_all(conf, bdir, log):
    """Returns the executables, one per build (a list of (name, sources, extra flags))."""
    base = CXX + DEF + INC
    builds = conf.get("builds") or [("", conf["sources"], [])]
    ismpi = lambda name: conf.get("mpi") or name.startswith("mpi")
    mainof = lambda name: VERIF + "/common/" + ("mpi_main.cc" if ismpi(name) else "pbt_main.cc")
    jobs, objs = [], {}
    for name, srcs, extra in builds:
        flags = conf.get("flags", DEFAULTS["flags"]) + extra
        for s in [mainof(name)] + [VERIF + "/harness/" + s for s in srcs]:
            out = "%s/o%d.o" % (bdir, len(jobs))
            key = (s, tuple(flags))
            if key in objs and s.startswith(VERIF + "/common/"):
                continue
            objs[key] = out
            jobs.append((s, flags, out))
    def one(job):
        src, flags, out = job
        t = time.time()
        p = subprocess.run(base + flags + ["-c", src, "-o", out], capture_output=True, text=True)
        return src, flags, p, time.time() - t
    jobs.sort(key=lambda j: "/common/" in j[0])
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    for src, flags, p, t in res:
        log("  compile %s %.1fs" % (os.path.basename(src), t))
    bad = [r for r in res if r[2].returncode]
    if bad:
        for src, flags, p, t in bad:
            print("COMPILE ERROR %s\n%s" % (src, p.stderr[:6000]))
        return None
    exes = []
    for name, srcs, extra in builds:
        flags = conf.get("flags", DEFAULTS["flags"]) + extra
        o = [objs[(s, tuple(flags))] for s in [mainof(name)] + [VERIF + "/harness/" + s for s in srcs]]
        exe = bdir + "/check" + name
        p = subprocess.run(["g++"] + flags + ["-o", exe] + o + LINK, capture_output=True, text=True)
        if p.returncode:
            print("LINK ERROR\n" + p.stderr[-4000:])
            return None
        exes.append((exe, ismpi(name)))
    return exes

def merge(covs):
    m = covs[0]
    for c in covs[1:]:
        for k in ("evaluations", "distinct_nontrivial", "nontrivial", "discarded", "unstable", "generation_s", "violations"):
            m[k] += c[k]
        m["truncated_by_time"] = m["truncated_by_time"] or c["truncated_by_time"]
        m["per_property"].update(c["per_property"]); m["labels"].update(c["labels"]); m["samples"] += c["samples"]
    m["samples"] = m["samples"][:40]
    return m

def known_findings():
    out = []
    path = VERIF + "/known-findings.txt"
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l and not l.startswith("#"):
                out.append(l)
    return out

def main():
    a = sys.argv[1:]
    cid = a.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    extra, replay, keep, verbose = [], None, None, False
    while a:
        x = a.pop(0)
        if x in ("quick", "thorough"): tier = x
        elif x == "--replay": replay = os.path.abspath(a.pop(0))
        elif x == "--verbose": verbose = True
        elif x in ("--only", "--scale"): extra += [x, a.pop(0)]
        elif x == "--seed": seed = int(a.pop(0))
        elif x == "--keep": keep = a.pop(0)
        else: sys.exit("bad argument " + x)
    conf = CHECKS[cid]
    log = (lambda s: print(s, flush=True)) if verbose else (lambda s: None)
    t0 = time.time()
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    os.makedirs(VERIF + "/replays", exist_ok=True)
    bdir = keep or tempfile.mkdtemp(prefix="verif-%s-" % cid)
    os.makedirs(bdir, exist_ok=True)
    rc = 2
    try:
        exes = compile_all(conf, bdir, log)
        if exes is None:
            return 2
        tc = time.time() - t0
        log("build %.1fs" % tc)
        covs, rcs = [], []
        for exe, mpi in exes:
            if 1 in rcs and time.time() - t0 > 300:
                print("violations were found; skipping the remaining builds")
                break
            sys.stdout.flush()
            if mpi:
                import mpidriver
                r, c = mpidriver.run(conf, cid, tier, seed, exe, bdir, VERIF, ENV, extra, replay, verbose, log)
                rcs.append(r)
                if c: covs.append(c)
                continue
            cmd = [exe, "--id", cid, "--tier", tier, "--seed", str(seed), "--replay-dir", VERIF + "/replays",
                   "--out", bdir + "/cov.json",
                   "--cap", str(conf.get("cap", DEFAULTS["cap"])[tier] / len(exes)),
                   "--scale", str(conf.get("scale", {}).get(tier, 1))] + extra
            if verbose: cmd.append("--verbose")
            if replay: cmd += ["--replay", replay]
            rcs.append(subprocess.run(cmd, env=ENV, cwd=bdir).returncode)
            if os.path.exists(bdir + "/cov.json"):
                covs.append(json.load(open(bdir + "/cov.json")))
                os.remove(bdir + "/cov.json")
        if replay:
            rc = 1 if 1 in rcs else 0 if 0 in rcs else 2
        else:
            rc = max(rcs) if all(r in (0, 1) for r in rcs) and len(covs) == len(rcs) else 2
        cov = merge(covs) if covs else None
        if replay:
            if rc == 1: print("VIOLATION property=%s replay=%s" % (cid, replay))
            return rc
        if rc not in (0, 1) or cov is None:
            print("ERROR: harness ended with %s" % rc)
            return 2
        cov["build_s"] = round(tc, 1)
        kf = [l for l in known_findings() if l.startswith("known: property=%s " % cid)]
        for l in kf:
            print("KNOWN-FINDING: " + l[len("known: "):])
        ev = {"property": cid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": conf.get("assumptions", []) + DEFAULTS["assumptions"],
              "wall_s": round(time.time() - t0, 1), "violations": cov.get("violations", 0)}
        json.dump(ev, open(VERIF + "/evidence/%s.json" % cid, "w"), indent=1)
        return rc
    finally:
        if not keep:
            shutil.rmtree(bdir, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
