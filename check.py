#!/usr/bin/env python3
"""Builds the simulator with the library's current working tree and runs the
check of one property.

  check.py <ID> [--tier quick|thorough] [--replay FILE] [-- harness options]
  check.py --build           build everything (setup)

Objects are cached under /verif/.build by a hash of everything they depend on
(command, source, all headers), so nothing stale is ever linked.
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, ".build")
SRC = os.path.join(REPO, "src")
CXX = os.environ.get("SIM_CXX", "g++")

MPI_INC = ["/usr/lib/x86_64-linux-gnu/openmpi/include", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
INC = ["mesh", "geometry", "error_handling", "mesh/mesh_simple", "mesh/mesh_factory", "statemanager"]
LIBSRC_GLOBS = ["error_handling/*.cc", "geometry/*.cc", "mesh/*.cc", "mesh/mesh_simple/*.cc",
                "mesh/mesh_factory/*.cc", "statemanager/*.cc"]
EXCLUDE = {"mesh/mesh_factory/FrameworkTraits.cc"}
DEFS = ["-DNDEBUG", "-DJali_HAVE_METIS", "-DOMPI_SKIP_MPICXX"]

FLAVOUR = {
    # address sanitizer, automatic variables pattern-initialised, heap behind the allocation seam
    "A": ["-O1", "-g1", "-fsanitize=address", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"],
    # every memory access of the library and the workload is a scheduling point of the simulator
    "T": ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer", "-D_GLIBCXX_EXTERN_TEMPLATE=0"],
}

# property -> list of variants (workload file, flavour, extra defines, share of the budget)
SPEC = {
    "C01": [("w_c01.cc", "A", ["-DHAVE_MSTK_MESH", "-DSIM_VARIANT=0"], 0.7), ("w_c01.cc", "A", ["-DSIM_VARIANT=1"], 0.3)],
    "C02": [("w_c02.cc", "A", ["-DHAVE_MSTK_MESH", "-DSIM_VARIANT=0"], 0.7), ("w_c02.cc", "A", ["-DSIM_VARIANT=1"], 0.3)],
    "C03": [("w_c03.cc", "T", [], 1)],
    "C04": [("w_c04.cc", "T", [], 1)],
    "C05": [("w_c05.cc", "A", [], 1)],
    "C06": [("w_c06.cc", "A", [], 1)],
    "C07": [("w_c07.cc", "A", [], 1)],
    "C08": [("w_c08.cc", "A", [], 1)],
    "C09": [("w_c09.cc", "A", [], 1)],
    "C10": [("w_c10.cc", "A", [], 1)],
    "C11": [("w_c11.cc", "A", [], 1)],
    "C12": [("w_c12.cc", "A", [], 1)],
    "C13": [("w_c13.cc", "A", [], 1)],
    "C14": [("w_c14.cc", "A", [], 1)],
    "C15": [("w_c15.cc", "A", [], 1)],
    "C16": [("w_c16.cc", "A", ["-DHAVE_MSTK_MESH", "-DSIM_VARIANT=0"], 1)],
}
BUDGET = {"quick": 40.0, "thorough": 420.0}
# C library calls of instrumented code that arrive in tsan_rt.cc instead
LIB_WRAP = ["memcpy", "memmove", "memset", "memcmp", "strlen", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock",
            "pthread_once", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock"]


def lib_sources():
    out = []
    for g in LIBSRC_GLOBS:
        for f in sorted(glob.glob(os.path.join(SRC, g))):
            if os.path.relpath(f, SRC) not in EXCLUDE:
                out.append(f)
    return out


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


_hdr = None
def headers_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        files = []
        for root, dirs, fs in os.walk(SRC):
            dirs[:] = sorted(d for d in dirs if d != "test")
            files += [os.path.join(root, f) for f in sorted(fs) if f.endswith((".hh", ".h", ".hpp", ".in"))]
        files += sorted(glob.glob(SIM + "/*.hpp")) + sorted(glob.glob(SIM + "/stub/*"))
        for f in files:
            h.update(f.encode()); h.update(open(f, "rb").read())
        _hdr = h.hexdigest()
    return _hdr


def compile_cmd(src, flavour, defs, is_lib, is_core):
    cmd = [CXX]
    if is_core:
        cmd += ["-std=c++17", "-O2", "-g1", "-fno-omit-frame-pointer"]
        if flavour == "A":  # vectors shared with instrumented code keep their bounds up to date
            cmd += ["-D_GLIBCXX_SANITIZE_STD_ALLOCATOR=1", "-D_GLIBCXX_SANITIZE_VECTOR=1"]
    else:
        cmd += ["-std=c++14", "-w"] + FLAVOUR[flavour]
    cmd += DEFS + defs
    if not is_core or os.path.basename(src) == "mpi_sim.cc":
        for i in INC:
            cmd.append("-I" + os.path.join(SRC, i))
        cmd.append("-I" + SRC)
    cmd += ["-I" + SIM, "-I" + SIM + "/stub"]
    for i in MPI_INC:
        cmd += ["-isystem", i]
    return cmd


def obj_for(src, flavour, defs, is_lib, is_core):
    cmd = compile_cmd(src, flavour, defs, is_lib, is_core)
    key = sha(" ".join(cmd), " ".join(LIB_WRAP) if flavour == "T" else "", src, open(src, "rb").read(), headers_hash())
    return cmd, os.path.join(BUILD, "obj", os.path.basename(src) + "." + key[:24] + ".o")


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors="replace")


def compile_one(job):
    cmd, src, obj = job
    if os.path.exists(obj):
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    rc, out = run(cmd + ["-c", src, "-o", tmp])
    if rc:
        return "compile failed: %s\n%s" % (src, out[-4000:])
    if "-fsanitize=thread" in cmd:
        rc, out = run(["objcopy"] + ["--redefine-sym=%s=simt_%s" % (x, x) for x in LIB_WRAP] + [tmp])
        if rc:
            return "objcopy failed: %s\n%s" % (src, out)
    os.rename(tmp, obj)
    return None


def plan(prop):
    """jobs and binaries of a property"""
    jobs, bins = [], []
    for (w, fl, defs, share) in SPEC[prop]:
        objs = []
        for s in lib_sources():
            d = [x for x in defs if x.startswith("-DHAVE")] if s.endswith("MeshFactory.cc") else []
            objs.append((s,) + obj_for(s, fl, d, True, False))
        objs.append((os.path.join(SIM, w),) + obj_for(os.path.join(SIM, w), fl, defs, False, False))
        core = ["sim_core.cc", "mpi_sim.cc"] + (["tsan_rt.cc"] if fl == "T" else [])
        for c in core:
            s = os.path.join(SIM, c)
            objs.append((s,) + obj_for(s, fl, [], False, True))
        jobs += [(cmd, s, o) for (s, cmd, o) in objs]
        link = [CXX, "-g1", "-rdynamic"]
        if fl == "A":
            link += ["-fsanitize=address"]
        olist = [o for (_, _, o) in objs]
        key = sha(" ".join(link), *olist)
        binary = os.path.join(BUILD, "bin", "%s-%s" % (w[:-3], key[:24]))
        bins.append((binary, link, olist, share, fl))
    return jobs, bins


def build(props):
    os.makedirs(BUILD + "/obj", exist_ok=True)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        jobs, bins = {}, {}
        for p in props:
            j, b = plan(p)
            for x in j:
                jobs[x[2]] = x
            bins[p] = b
        # big files first
        todo = sorted((j for j in jobs.values() if not os.path.exists(j[2])), key=lambda j: -os.path.getsize(j[1]))
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            for err in ex.map(compile_one, todo):
                if err:
                    print(err, file=sys.stderr)
                    return None
        def link(b):
            binary, cmd, olist, _, _ = b
            if os.path.exists(binary):
                return None
            tmp = binary + ".%d.tmp" % os.getpid()
            rc, out = run(cmd + olist + ["-o", tmp, "-Wl,--wrap=METIS_PartGraphRecursive,--wrap=METIS_PartGraphKway", "-lmetis", "-lpthread", "-ldl"])
            if rc:
                return "link failed: %s\n%s" % (binary, out[-4000:])
            os.rename(tmp, binary)
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            for err in ex.map(link, [b for l in bins.values() for b in l]):
                if err:
                    print(err, file=sys.stderr)
                    return None
        # prune: keep the cache bounded
        for d, keep in (("obj", 900), ("bin", 120)):
            fs = sorted(glob.glob(BUILD + "/" + d + "/*"), key=os.path.getmtime, reverse=True)
            for f in fs[keep:]:
                os.unlink(f)
    return bins


def merge_evidence(parts, out):
    docs = [json.load(open(p)) for p in parts if os.path.exists(p)]
    if not docs:
        return
    d = docs[0]
    for e in docs[1:]:
        for k, v in e["coverage"].items():
            if k in ("faults", "probes", "determinism"):
                for kk, vv in v.items():
                    if isinstance(vv, dict):
                        t = d["coverage"][k].setdefault(kk, {})
                        for a, b in vv.items():
                            t[a] = t.get(a, 0) + b
                    else:
                        d["coverage"][k][kk] = d["coverage"][k].get(kk, 0) + vv
            elif k == "samples":
                d["coverage"][k] += v
            elif isinstance(v, (int, float)) and k not in ("workers", "simulated_runs_per_hour", "seeds_per_hour"):
                d["coverage"][k] = d["coverage"].get(k, 0) + v
            elif k == "violation":
                d["coverage"][k] = v
            elif k in ("simulated_runs_per_hour", "seeds_per_hour"):
                d["coverage"][k] = int((d["coverage"][k] + v) / 2)
        d["wall_s"] += e["wall_s"]
        d["violations"] += e["violations"]
    d["coverage"]["variants"] = len(docs)
    with open(out + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
    os.rename(out + ".tmp", out)


def main():
    args = sys.argv[1:]
    if args and args[0] == "--build":
        props = args[1:] or [p for p in SPEC if all(os.path.exists(os.path.join(SIM, v[0])) for v in SPEC[p])]
        t = time.time()
        if build(props) is None:
            return 2
        print("built %d properties in %.1fs" % (len(props), time.time() - t))
        return 0
    prop = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    replay, extra = None, []
    budget = None
    while args:
        a = args.pop(0)
        if a == "--tier": tier = args.pop(0)
        elif a == "--replay": replay = args.pop(0)
        elif a == "--budget": budget = float(args.pop(0))
        elif a == "--": extra = args; break
        else:
            print("unknown option", a, file=sys.stderr); return 2
    seed = os.environ.get("VERIF_SEED", "1")
    t0 = time.time()
    bins = build([prop])
    if bins is None:
        return 2
    bins = bins[prop]
    print("check: %s built in %.1fs" % (prop, time.time() - t0)); sys.stdout.flush()
    if replay:
        v = 0
        for line in open(replay):
            if line.startswith("cfg variant "):
                v = int(line.split()[2])
        return subprocess.run([bins[v][0], "--replay", os.path.abspath(replay), "--verbose"] + extra).returncode
    if budget is None:
        budget = BUDGET[tier]
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    final = os.path.join(evdir, prop + ".json")
    rc, parts = 0, []
    for n, (binary, _, _, share, fl) in enumerate(bins):
        ev = final if len(bins) == 1 else final + ".%d" % n
        parts.append(ev)
        cmd = [binary, "--tier", tier, "--seed", seed, "--budget", str(budget * share), "--evidence", ev,
               "--known", os.path.join(VERIF, "known_findings.txt"), "--outdir", os.path.join(VERIF, "replays"),
               "--flavour", fl] + extra
        r = subprocess.run(cmd).returncode
        if r == 1:
            rc = 1
            break
        if r not in (0, 1) and rc == 0:
            rc = 2
    if len(bins) > 1:
        merge_evidence(parts, final)
        for p in parts:
            if os.path.exists(p):
                os.unlink(p)
    return rc


if __name__ == "__main__":
    sys.exit(main())
