#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]: decide one property on /repo's working tree.

Builds the property's harness from /repo's current sources together with the simulated runtimes in
/verif/mc, runs it on all cores (cases split by index), and judges. Exit 0: held on everything explored.
Exit 1 + VIOLATION line: broken. Exit 2: the check could not be run."""
import json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "meta"))
from harnesses import H, LEVELS
R = os.environ.get("MACIS_REPO", "/repo")
JOBS = max(1, min(8, os.cpu_count() or 1))

BASE = ["-std=gnu++17", "-g1", "-w", "-DNDEBUG", "-fopenmp", "-pthread", "-DFMT_SHARED", "-DSPDLOG_COMPILED_LIB",
        "-DSPDLOG_FMT_EXTERNAL", "-DSPDLOG_SHARED_LIB"]
MACIS_SRC = ["transform", "fock_matrices", "fcidump", "casscf", "moller_plesset", "orbital_energies",
             "orbital_gradient", "orbital_hessian", "orbital_rotation_utilities", "orbital_steps"]
ATTIC_SRC = ["eigsolver", "combins", "bandlan", "slaterdet", "hamil", "ed", "rdms", "utils"]

# library routines whose arguments are checked by mc/blaswrap.cpp
BLAS = """gemm trsm axpy copy swap scal dot nrm2 syev potrf lacpy gelss gesvd gelqf ormlq geqrf orgqr sytrd orgtr steqr
  sbtrd""".split()

def gen_config(bdir):
    for src, dst, on in (("include/macis/macis_config.hpp.in", "gen/macis/macis_config.hpp", {"MACIS_ENABLE_MPI"}),
                         ("src/sparsexx/include/sparsexx/sparsexx_config.hpp.in", "gen/sparsexx/sparsexx_config.hpp", {"SPARSEXX_ENABLE_MPI"})):
        out = []
        for l in open(os.path.join(R, src)):
            m = re.match(r"#\s*cmakedefine\s+(\w+)", l)
            out.append((f"#define {m[1]}\n" if m[1] in on else "") if m else l)
        p = os.path.join(bdir, dst)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write("".join(out))
    p = os.path.join(bdir, "gen/CMZedConfig.h")
    open(p, "w").write("#define VERSION_MAJOR 1\n#define VERSION_MINOR 0\n")

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build(prop, bdir):
    h = H[prop]
    gen_config(bdir)
    san = h.get("san", "address")
    opt = [h.get("opt", "-O1"), "-fno-omit-frame-pointer"] + (["-fsanitize=address"] if san == "address" else [])
    mon = ["-fsanitize=thread", "-O1"] if san == "monitor" else opt
    inc = [f"-I{V}/mc", f"-I{V}/harness", f"-I{V}/mc/simmpi", f"-I{V}/mc/mdspan", f"-I{V}/mc/metis", f"-I{R}/include", f"-I{R}/src/macis", f"-I{bdir}/gen"]
    if not h.get("attic"):
        inc += [f"-I{R}/src/sparsexx/include", f"-I{R}/src/lobpcgxx/include"]
    inc += ["-isystem", "/usr/include/eigen3"]
    cc = h.get("cxx", "g++")
    jobs = []
    base = BASE + h.get("flags", [])
    for s in h["src"]:
        f, _, d = s.partition("@")
        jobs.append((os.path.join(V, "harness", f), mon + ([f"-D{d}"] if d else [])))
    for s in h.get("macis", []):
        jobs.append((os.path.join(R, "src/macis", s + ".cxx"), mon))
    for s in h.get("repo", []):
        jobs.append((os.path.join(R, s), mon))
    for s in h.get("attic", []):
        jobs.append((os.path.join(R, "attic/src/cmz_ed", s + ".c++"), mon))
    if h.get("attic"):
        inc = [f"-I{V}/mc", f"-I{V}/harness", f"-I{V}/mc/simmpi", f"-I{V}/mc/shim", f"-I{R}/attic/inc", f"-I{bdir}/gen",
               f"-I{R}/attic/external/sparsexx/include", f"-I{R}/attic/external/lobpcgxx/include", "-isystem", "/usr/include/eigen3"]
        base = [b for b in base if not b.startswith("-std")] + ["-std=gnu++20", "-include", "memory", "-include", "optional"]
    for s in ("mc/mc.cpp", "mc/simmpi/simmpi.cpp"):
        jobs.append((os.path.join(V, s), opt if san == "address" else ["-O1"]))
    jobs.append((os.path.join(V, "mc/omp/simomp.cpp"), ["-O1"] + (["-DSOMP_MONITOR"] if san == "monitor" else [])))
    if san == "address": jobs.append((os.path.join(V, "mc/blaswrap.cpp"), ["-O1"]))
    objs = []
    def comp(j):
        i, (src, fl) = j
        o = os.path.join(bdir, f"{i}.o")
        xl = ["-x", "c++"] if src.endswith("c++") else []
        r = run([cc] + base + fl + inc + xl + ["-c", src, "-o", o])
        return src, o, r
    with ThreadPoolExecutor(JOBS) as ex:
        for src, o, r in ex.map(comp, list(enumerate(jobs))):
            if r.returncode:
                sys.stdout.write(r.stdout[-6000:])
                print(f"ERROR: cannot compile {src}")
                sys.exit(2)
            objs.append(o)
    link = [cc, "-pthread", "-o", os.path.join(bdir, "h")] + objs
    if san == "address":
        link += ["-fsanitize=address"] + [f"-Wl,--wrap={p}{f}_" for p in "ds" for f in BLAS]
    if san == "monitor": link += ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"]
    link += h.get("libs", []) + ["-llapackpp", "-lblaspp", "-lspdlog", "-lfmt", "-lopenblas", "-ldl"]
    r = run(link)
    if r.returncode and not h.get("attic"):  # sources may come to depend on others of the library
        more = [os.path.join(R, "src/macis", f) for f in sorted(os.listdir(os.path.join(R, "src/macis"))) if f.endswith(".cxx") and f[:-4] not in h.get("macis", [])]
        n = len(jobs)
        with ThreadPoolExecutor(JOBS) as ex:
            objs2 = [o for _, o, q in ex.map(comp, [(n + i, (f, mon)) for i, f in enumerate(more)]) if q.returncode == 0]
        ar = os.path.join(bdir, "libmore.a")
        if objs2 and run(["ar", "rcs", ar] + objs2).returncode == 0:
            r = run(link[:link.index(objs[-1]) + 1] + [ar] + link[link.index(objs[-1]) + 1:])
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        print("ERROR: cannot link the harness")
        sys.exit(2)
    return os.path.join(bdir, "h")

def env():
    e = dict(os.environ)
    e.update(OPENBLAS_NUM_THREADS="1", ASAN_OPTIONS="detect_leaks=0:exitcode=77:allocator_may_return_null=1:"
             "max_malloc_fill_size=65536:malloc_fill_byte=190:detect_stack_use_after_return=0:handle_segv=1:use_sigaltstack=0:alloc_dealloc_mismatch=0")
    return e

def read_cur(p):
    try:
        b = open(p, "rb").read()
        beat, ix = struct.unpack_from("QQ", b)
        return beat, ix, b[16:80].split(b"\0")[0].decode(), b[80:].split(b"\0")[0].decode(errors="replace")
    except Exception:
        return 0, 0, "", ""

def how_ended(rc, err):
    m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", err)
    if m: return "memory error: " + re.sub(r"0x[0-9a-f]+", "ADDR", m[1])[:200]
    m = re.search(r"^simomp: (.*)$", err, re.M)
    if m: return m[1]
    m = re.search(r"^smpi: (.*)$", err, re.M)
    if m: return m[1]
    m = re.search(r"(terminate called[^\n]*(\n[^\n]*what\(\)[^\n]*)?)", err)
    if m: return m[1].replace("\n", " ")
    m = re.search(r"(Assertion [^\n]*failed[^\n]*)", err) or re.search(r"^(Error: [^\n]*(\n +[^\n]*)?)", err, re.M)
    if m: return " ".join(m[1].split())[:300]
    if rc < 0: return "killed by signal " + signal.Signals(-rc).name
    return f"ended with code {rc}"

HANG = 120  # seconds of its own processor time, or three times as long on the clock
def cpu(pid):
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except Exception:
        return 0.
def wait_limited(p, limit):
    t = time.time()
    while True:
        try: return p.wait(0.2)
        except subprocess.TimeoutExpired:
            if cpu(p.pid) > limit or time.time() - t > 3 * limit: raise
def run_one(exe, tier, suite, index, tmp, limit=HANG):
    """Replay one case alone. Returns (failures, desc)."""
    d = tempfile.mkdtemp(dir=tmp)
    out, cur, errf = d + "/o.json", d + "/cur", d + "/err"
    try:
        with open(errf, "wb") as ef:
            p = subprocess.Popen([exe, "--tier", tier, "--suite", suite, "--index", str(index), "--out", out, "--cur", cur, "--dir", d], stdout=subprocess.DEVNULL, stderr=ef, env=env(), cwd=d)
            try: rc = wait_limited(p, limit)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait()
                return [dict(suite=suite, index=index, desc=read_cur(cur)[3], msg=f"does not finish within {limit} s")]
        if rc == 0: return json.load(open(out))["failures"]
        if rc == 4: return None
        return [dict(suite=suite, index=index, desc=read_cur(cur)[3], msg=how_ended(rc, open(errf, errors="replace").read()))]
    finally:
        shutil.rmtree(d, ignore_errors=True)

def rerun_shard(exe, tier, i, tmp):
    """Repeat all cases of a shard; what it dies of, or None."""
    d = tempfile.mkdtemp(dir=tmp)
    with open(d + "/err", "wb") as ef:
        p = subprocess.Popen([exe, "--tier", tier, "--shard", str(i), "--nshards", str(JOBS), "--out", d + "/o.json", "--cur", d + "/cur",
                              "--dir", d, "--deadline", "240"], stdout=subprocess.DEVNULL, stderr=ef, env=env(), cwd=d)
        try: rc = p.wait(270)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
            return None
    if rc == 0 or rc == -signal.SIGKILL: return None
    return how_ended(rc, open(d + "/err", errors="replace").read())

def load_known(prop):
    known, fixed = [], []
    p = os.path.join(V, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        m = re.match(r"known: property=(\S+) suite=(\S+) case=/(.*)/ (.*)$", l)
        if m and m[1] == prop: known.append((m[2], re.compile(m[3]), m[4]))
    return known

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    a = sys.argv[2:]
    while a:
        o = a.pop(0)
        if o == "--tier": tier = a.pop(0)
        elif o == "--replay": replay = a.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(os.path.join(V, "_build"), exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(V, "_build"))
    tmp = tempfile.mkdtemp(prefix="mcv-")
    try:
        exe = build(prop, bdir)
        tb = time.time() - t0
        if replay:
            r = json.load(open(replay))
            f = run_one(exe, r["tier"], r["suite"], r["index"], tmp)
            if not f and "shard" in r:
                a = rerun_shard(exe, r["tier"], r["shard"], tmp)
                f = [dict(r, msg=a)] if a else f
            for x in f or []: print(f"{x['suite']}#{x['index']}: {x['desc']}\n  {x['msg']}")
            if f:
                print(f"VIOLATION property={prop} replay={replay}")
                return 1
            print("the case passes")
            return 0
        return explore(prop, tier, seed, exe, tmp, t0, tb)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)

def explore(prop, tier, seed, exe, tmp, t0, tb):
    h = H[prop]
    limit = 480 if tier == "quick" else h.get("thorough_limit", 3000)
    procs = []
    known = load_known(prop)
    for i in range(JOBS):
        d = f"{tmp}/s{i}"
        os.makedirs(d)
        ef = open(d + "/err", "wb")
        p = subprocess.Popen([exe, "--tier", tier, "--shard", str(i), "--nshards", str(JOBS), "--out", d + "/o.json", "--cur", d + "/cur",
                              "--dir", d, "--deadline", str(limit), "--maxfail", "4" if not known else "400"], stdout=subprocess.DEVNULL, stderr=ef, env=env(), cwd=d)
        procs.append([p, d, None, (0., time.time()), False])
    alive = list(procs)
    while alive:
        time.sleep(0.1)
        for q in list(alive):
            if q[0].poll() is not None:
                alive.remove(q); continue
            b = read_cur(q[1] + "/cur")[0]
            if b != q[2]: q[2], q[3] = b, (cpu(q[0].pid), time.time())
            elif time.time() - q[3][1] > HANG and (cpu(q[0].pid) - q[3][0] > HANG or time.time() - q[3][1] > 3 * HANG):
                q[4] = True
                q[0].kill(); q[0].wait()
                alive.remove(q)
    fails, data = [], []
    for p, d, _, _, hung in procs:
        rc = p.returncode
        if rc == 0 and not hung:
            data.append(json.load(open(d + "/o.json")))
            fails += data[-1]["failures"]
            continue
        _, ix, suite, desc = read_cur(d + "/cur")
        how = "does not finish" if hung else how_ended(rc, open(d + "/err", errors="replace").read())
        if suite:
            f = run_one(exe, tier, suite, ix, tmp)
            if f:
                fails += f
                continue
            # not reproducible alone: the state left by earlier cases of this process matters; repeat them all
            print(f"note: shard ended ({how}) in {suite}#{ix}, which passes alone")
            i = procs.index(next(q for q in procs if q[1] == d))
            again = rerun_shard(exe, tier, i, tmp)
            if again:
                fails.append(dict(suite=suite, index=ix, desc=f"{desc} (after the earlier cases of its process)", msg=again, shard=i))
                continue
        print(f"ERROR: a harness process ended without a result: {how}")
        sys.stdout.write(open(d + "/err", errors="replace").read()[-3000:])
        return 2
    tot = lambda k: sum(x[k] for x in data)
    cnt, suites, secs = {}, {}, {}
    for x in data:
        for k, v in x["counters"].items(): cnt[k] = cnt.get(k, 0) + v
        for k, v in x["suites"].items(): suites[k] = suites.get(k, 0) + v
        for k, v in x["suite_s"].items(): secs[k] = round(secs.get(k, 0) + v, 1)
    trunc = any(x["truncated"] for x in data)
    unknown, seen_known = [], {}
    for f in fails:
        k = next((k for k in known if re.fullmatch(k[0], f["suite"]) and k[1].search(f["desc"])), None)
        if k: seen_known.setdefault(k[2], f)
        else: unknown.append(f)
    for text, f in seen_known.items():
        print(f"KNOWN-FINDING: property={prop} {text} (e.g. {f['suite']}#{f['index']}: {f['desc'][:160]})")
    rc = 0
    if unknown:
        os.makedirs(os.path.join(V, "_replay"), exist_ok=True)
        for n, f in enumerate(unknown[:3]):
            path = os.path.join(V, "_replay", f"{prop}-{n}.json")
            json.dump(dict(property=prop, tier=tier, **f), open(path, "w"), indent=1)
            print(f"{f['suite']}#{f['index']}: {f['desc']}\n  {f['msg']}")
            if n == 0: first = path
        print(f"VIOLATION property={prop} replay={first}")
        rc = 1
    level = LEVELS[prop]
    samples = []
    for x in data:
        for s in x["samples"]:
            if not any(t["suite"] == s["suite"] and t["n"] >= 3 for t in samples if t["suite"] == s["suite"]):
                k = 1 + sum(t["suite"] == s["suite"] for t in samples)
                samples.append(dict(suite=s["suite"], n=k, index=s["index"], case=s["desc"]))
    cov = dict(evaluations=tot("cases"), distinct_nontrivial=tot("nontrivial"), rule=h["rule"], samples=samples[:40],
               exhaustive=not trunc and not unknown, cases_per_suite=suites, cpu_s_per_suite=secs, counters=cnt, executions=tot("executions"))
    if level == "model_checking":
        cov.update(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("executions"))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=h.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(unknown), build_s=round(tb, 2), known_findings_seen=len(seen_known))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} [{tier}]: {cov['evaluations']} cases ({cov['distinct_nontrivial']} nontrivial), {cov['executions']} executions, "
          f"{tot('transitions')} transitions, {'bounded space exhausted' if not trunc else 'TIME LIMIT: not exhausted'}; "
          f"build {tb:.0f}s total {time.time()-t0:.0f}s: {'VIOLATED' if rc else 'held'}")
    return rc

if __name__ == "__main__":
    sys.exit(main())
