#!/usr/bin/env python3
"""Driver of the property-based checks.

  run.py <ID>                 run the check of property <ID> (tier from VERIF_TIER, seed from VERIF_SEED)
  run.py <ID> --replay FILE   re-run one saved case
Everything is rebuilt from /repo's working tree (object cache keyed by the preprocessed source).
"""
import glob, hashlib, json, os, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

NCPU = os.cpu_count() or 4
ENV = dict(os.environ)
ENV.update({
    "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
    "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_hwloc_base_binding_policy": "none",
    "OMPI_MCA_plm": "isolated", "OMPI_MCA_oob_tcp_if_include": "lo",
    "OMPI_MCA_mpi_yield_when_idle": "1",
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=98:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98:print_stacktrace=1",
})
for v in ("LD_LIBRARY_PATH", "NLCGLIB_DISABLE_NEWTON_EFERMI"):
    ENV.pop(v, None)

OMPI = "/usr/lib/x86_64-linux-gnu/openmpi"
INC = ["-I" + REPO + "/src", "-I" + REPO + "/include", "-I" + VERIF + "/src", "-isystem", "/usr/include/trilinos",
       "-I" + OMPI + "/include", "-I" + OMPI + "/include/openmpi", "-I/usr/include/x86_64-linux-gnu/openblas-pthread/"]
LINK = ["-ltrilinos_kokkosalgorithms", "-ltrilinos_kokkoscontainers", "-ltrilinos_kokkoscore",
        "-L" + OMPI + "/lib", "-lmpi_cxx", "-lmpi", "-llapacke", "-lopenblas", "-lpthread", "-ldl"]
BASE = ["g++", "-std=c++17", "-DKOKKOS_DEPENDENCE", "-w"]


class BuildError(Exception):
    pass


def compile_obj(src, flags, outdir):
    """compile src -> object; objects are cached under the hash of the preprocessed text"""
    base = os.path.basename(src)
    cmd = BASE + flags + INC
    pp = subprocess.run(cmd + ["-E", "-P", src], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pp.returncode != 0:
        raise BuildError(pp.stderr.decode(errors="replace")[-4000:])
    h = hashlib.sha256()
    h.update(repr(BASE + flags).encode())
    h.update(pp.stdout)
    cache = os.path.join(VERIF, ".cache")
    obj = os.path.join(cache, h.hexdigest() + ".o")
    if os.path.exists(obj):
        try:
            os.utime(obj)
        except OSError:
            pass
        return obj
    tmp = os.path.join(outdir, hashlib.sha1((src + repr(flags)).encode()).hexdigest()[:8] + "-" + base + ".o")
    cc = subprocess.run(cmd + ["-c", src, "-o", tmp], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if cc.returncode != 0:
        raise BuildError(cc.stdout.decode(errors="replace")[-4000:])
    try:
        os.makedirs(cache, exist_ok=True)
        olds = sorted(glob.glob(cache + "/*.o"), key=os.path.getmtime)
        for o in olds[:-400]:
            os.unlink(o)
        shutil.copy(tmp, obj + ".%d" % os.getpid())
        os.rename(obj + ".%d" % os.getpid(), obj)
    except OSError:
        return tmp
    return obj


def build(harness, libflags, hflags, use_lib, outdir, link=()):
    """-> path of the harness binary"""
    jobs = []
    with ThreadPoolExecutor(max_workers=NCPU) as ex:
        jobs.append(ex.submit(compile_obj, os.path.join(VERIF, "src", harness), hflags, outdir))
        if use_lib:
            for s in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)):
                jobs.append(ex.submit(compile_obj, s, libflags, outdir))
        objs = [j.result() for j in jobs]
    exe = os.path.join(outdir, harness.replace(".cpp", "") + "-" + hashlib.sha1(repr((libflags, hflags)).encode()).hexdigest()[:8])
    r = subprocess.run(BASE + list(link) + objs + LINK + ["-o", exe], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError(r.stdout.decode(errors="replace")[-4000:])
    return exe


def read_tape(path):
    try:
        b = open(path, "rb").read(16 + 8 * 16384)
        n = struct.unpack_from("<QQ", b, 0)[1]
        return list(struct.unpack_from("<%dQ" % n, b, 16))
    except Exception:
        return []


class Job:
    def __init__(self, exe, np, env, cwd, args, timeout):
        self.exe, self.np, self.cwd, self.args, self.timeout = exe, np, cwd, args, timeout
        self.env = dict(ENV)
        self.env.update(env)

    def run(self):
        os.makedirs(self.cwd, exist_ok=True)
        self.env["TMPDIR"] = self.cwd
        cmd = [self.exe] + self.args
        if self.np > 1:
            cmd = ["mpirun", "-n", str(self.np)] + cmd
        err = open(os.path.join(self.cwd, "stderr.txt"), "wb")
        p = subprocess.Popen(cmd, cwd=self.cwd, env=self.env, stdout=subprocess.DEVNULL, stderr=err,
                             stdin=subprocess.DEVNULL, start_new_session=True)
        hang = False
        try:
            rc = p.wait(timeout=self.timeout)
        except subprocess.TimeoutExpired:
            hang = True
            rc = -99
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        err.close()
        out = None
        try:
            out = json.load(open(os.path.join(self.cwd, "out.json")))
        except Exception:
            pass
        self.rc, self.hang, self.out = rc, hang, out
        return self

    def stderr(self):
        try:
            return open(os.path.join(self.cwd, "stderr.txt"), errors="replace").read()[-3000:]
        except OSError:
            return ""


def kind_of(job):
    """ok / fail / crash / hang"""
    if job.rc == 0 and job.out is not None:
        return "ok"
    if job.rc == 1 and job.out is not None and job.out.get("failures"):
        return "fail"
    if job.hang or job.rc == 97:
        return "hang"
    return "crash"


def main():
    if sys.argv[1] == "--setup":  # nothing to build ahead: every check builds from /repo's tree
        for t in ("g++", "mpirun"):
            if not shutil.which(t, path=ENV["PATH"]):
                print("missing " + t)
                sys.exit(1)
        print("setup ok")
        sys.exit(0)
    pid = sys.argv[1]
    chk = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="nlcg-%s-" % pid)
    try:
        rc = check(pid, chk, tier, seed, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def replay_once(variant, exe, tape, work, tag, timeout=150):
    d = os.path.join(work, "rp-" + tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    f = os.path.join(d, "replay.json")
    json.dump({"tape": tape}, open(f, "w"))
    return Job(exe, variant.get("np", 1), variant.get("env", {}), d, ["--replay", f], timeout).run()


def shrink_external(variant, exe, tape, want, work, budget=40, seconds=60):
    """shrink a crashing / hanging tape: every candidate runs in a process of its own"""
    best = list(tape)
    end = time.time() + seconds
    n = 0

    def bad(t):
        nonlocal n
        n += 1
        j = replay_once(variant, exe, t, work, "s%d" % n, timeout=100)
        return kind_of(j) != "ok"
    size = max(1, len(best) // 2)
    while size >= 1 and n < budget and time.time() < end:
        i = 0
        while i < len(best) and n < budget and time.time() < end:
            c = best[:i] + [0] * min(size, len(best) - i) + best[i + size:]
            if c != best and bad(c):
                best = c
            i += size
        size //= 2
    while best and best[-1] == 0:
        best.pop()
    return best


def check(pid, chk, tier, seed, t0, work):
    if "--replay" in sys.argv:
        path = sys.argv[sys.argv.index("--replay") + 1]
        rep = json.load(open(path))
        variant = rep["variant"]
        exe = build(variant["harness"], variant["libflags"], variant["hflags"], variant["use_lib"], work, variant.get("link", []))
        if rep.get("argv"):
            j = Job(exe, variant.get("np", 1), variant.get("env", {}), os.path.join(work, "r"), rep["argv"], 3600).run()
        else:
            j = replay_once(variant, exe, rep["tape"], work, "r")
        k = kind_of(j)
        print("replay: " + k)
        if j.out and j.out.get("failures"):
            print(json.dumps(j.out["failures"][0], indent=1))
        elif k != "ok":
            print("exit status %s\n%s" % (j.rc, j.stderr()))
        if k != "ok":
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        return 0

    variants = chk["variants"](tier)
    # build all distinct binaries
    exes = {}
    todo = {}
    for v in variants:
        key = (v["harness"], tuple(v["libflags"]), tuple(v["hflags"]), v["use_lib"], tuple(v.get("link", [])))
        v["key"] = key
        todo[key] = v
    with ThreadPoolExecutor(max_workers=4) as ex:
        futs = {k: ex.submit(build, v["harness"], v["libflags"], v["hflags"], v["use_lib"], work, v.get("link", []))
                for k, v in todo.items()}
        unbuilt, err = [], None
        for k, f in futs.items():
            try:
                exes[k] = f.result()
            except BuildError as e:
                # a white-box harness names internals that may have been renamed: the black-box part still decides
                if not todo[k].get("optional"):
                    raise
                err = e
    unbuilt = sorted({v.get("name", v["harness"]) for v in variants if v["key"] not in exes})
    variants = [v for v in variants if v["key"] in exes and (unbuilt or not v.get("fallback"))]
    if not variants:
        raise err
    tbuild = time.time() - t0

    # jobs: every variant is split over shards
    jobs = []
    for vi, v in enumerate(variants):
        shards = v.get("shards", NCPU)
        per = -(-v["count"] // shards)
        for s in range(shards):
            d = os.path.join(work, "v%d-s%d" % (vi, s))
            args = ["--seed", str(seed * 7919 + vi), "--start", str(s), "--stride", str(shards), "--count", str(per),
                    "--out", "out.json", "--tape", "tape.bin", "--max-seconds", str(v.get("max_seconds", 120 if tier == "quick" else 2400))]
            if v.get("np", 1) > 1:
                # clocks of the ranks differ: nothing may depend on elapsed time
                args += ["--shrink-runs", "60", "--shrink-seconds", "1e9", "--max-seconds", "1e9", "--case-seconds", "25"]
            jobs.append((v, Job(exes[v["key"]], v.get("np", 1), v.get("env", {}), d, args,
                                v.get("timeout", 400 if tier == "quick" else 3600))))
    evals = discarded = 0
    hashes, labels, metrics, samples = set(), {}, {}, []
    violations = []
    inconclusive = [{"variant": n, "kind": "not-built", "msg": "white-box harness does not compile against this tree: " + "; ".join([l for l in str(err).splitlines() if "error" in l][:3])[:800]}
                    for n in unbuilt]

    def judge(v, j):
        """confirm (and shrink) what a failed job reports; -> a violation or None"""
        k = kind_of(j)
        o = j.out or {}
        if k == "fail":
            f = o["failures"][0]
            tape, msg = f["tape"], f["msg"]
            cand = [(tape, msg, f.get("info")), (f.get("original_tape", tape), f.get("first_msg", msg), None)]
        else:
            tape = read_tape(os.path.join(j.cwd, "tape.bin"))
            msg = "%s (exit status %s) %s" % (k, j.rc, j.stderr()[-1500:])
            cand = [(tape, msg, None)]
        vbody = {x: v[x] for x in v if x not in ("key",)}
        # confirm 3x before reporting
        for tape, msg, info in cand:
            if all(kind_of(replay_once(v, exes[v["key"]], tape, work, "c%d" % i)) != "ok" for i in range(1 if k == "hang" else 3)):
                if k != "fail":
                    tape = shrink_external(v, exes[v["key"]], tape, k, work)
                return {"variant": vbody, "kind": k, "msg": msg, "tape": tape, "info": info}
        # not reproducible from the single case: does the same sequence of cases fail again?
        for i in range(2):
            d = os.path.join(work, "again%d" % i)
            shutil.rmtree(d, ignore_errors=True)
            if kind_of(Job(j.exe, j.np, v.get("env", {}), d, j.args, j.timeout).run()) == "ok":
                inconclusive.append({"variant": v.get("name", ""), "kind": k, "msg": msg[:500], "tape": tape})
                return None
        return {"variant": vbody, "kind": k + "-after-history", "tape": tape, "argv": j.args, "info": None,
                "msg": "only fails after the preceding cases of its shard: " + msg}

    # run in rounds: a failing job stops further launches until its failure is confirmed or dismissed
    pending = list(jobs)
    while pending and not violations:
        stop = []

        def go(vj):
            if stop:
                return False
            vj[1].run()
            if kind_of(vj[1]) != "ok":
                stop.append(1)
            return True
        ran = [False] * len(pending)
        for np in sorted({v.get("np", 1) for v, _ in pending}):
            idx = [i for i, (v, _) in enumerate(pending) if v.get("np", 1) == np]
            with ThreadPoolExecutor(max_workers=max(1, NCPU // np)) as ex:
                for i, r in zip(idx, ex.map(lambda i: go(pending[i]), idx)):
                    ran[i] = r
        done = [vj for vj, r in zip(pending, ran) if r]
        pending = [vj for vj, r in zip(pending, ran) if not r]
        for v, j in done:
            o = j.out or {}
            evals += o.get("evaluations", 0)
            discarded += o.get("discarded", 0)
            hashes.update((v.get("name", ""), h) for h in o.get("nontrivial_hashes", []))
            for l, c in o.get("labels", {}).items():
                labels[l] = labels.get(l, 0) + c
            for m, x in o.get("metrics", {}).items():
                metrics[m] = max(metrics.get(m, 0), float(x))
            if len(samples) < 6:
                samples += [dict(s, variant=v.get("name", "")) for s in o.get("samples", [])[:1]]
        # the cheapest failures to confirm first; a crash or hang is slow, one is enough
        bad = sorted([vj for vj in done if kind_of(vj[1]) != "ok"], key=lambda vj: ("fail", "crash", "hang").index(kind_of(vj[1])))
        for v, j in bad:
            if violations and kind_of(j) != "fail":
                break
            vio = judge(v, j)
            if vio:
                violations.append(vio)
            if len(violations) >= 2:
                break

    # batch-level assertion over all cases (e.g. an overwhelming majority of runs converges)
    if not violations and chk.get("aggregate"):
        msg = chk["aggregate"](labels, evals)
        if msg:
            violations.append({"variant": {x: variants[0][x] for x in variants[0] if x != "key"}, "kind": "aggregate",
                               "msg": msg, "tape": [], "info": {"labels": labels, "seed": seed}})

    # known findings
    known = []
    try:
        for e in json.load(open(os.path.join(VERIF, "known_findings.json"))).get("open", []):
            if e["property"] == pid:
                known.append(e)
    except OSError:
        pass
    rc = 0
    lines = []
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for e in known:
        lines.append("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    for vio in violations:
        body = {"property": pid, "seed": seed, "tier": tier, **vio}
        h = hashlib.sha1(json.dumps([vio["tape"], vio["msg"]]).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, h))
        json.dump(body, open(path, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        lines.append("  " + vio["msg"][:1500].replace("\n", "\n  "))
        rc = 1

    cov = {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": chk["rule"], "samples": samples,
           "discarded": discarded, "labels": dict(sorted(labels.items())),
           "worst_error_over_bound": {k: metrics[k] for k in sorted(metrics)},
           "shards": len(jobs), "build_s": round(tbuild, 1),
           "inconclusive": inconclusive}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
    for l in lines:
        print(l)
    print("%s %s: %d cases, %d distinct non-trivial, %d violations, %.1fs (build %.1fs)%s" % (
        pid, tier, evals, len(hashes), len(violations), time.time() - t0, tbuild,
        ", %d inconclusive" % len(inconclusive) if inconclusive else ""))
    if rc == 0 and evals == 0:
        print("no case was run")
        return 2
    return rc


if __name__ == "__main__":
    try:
        main()
    except BuildError as e:
        print("BUILD ERROR\n" + str(e))
        sys.exit(3)
