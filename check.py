#!/usr/bin/env python3
"""Runner: builds /repo's current sources in the flavours a property needs, runs the drivers,
judges the recorded events, writes evidence/<id>.json.

  check.py ID            run the check (VERIF_TIER=quick|thorough, VERIF_SEED=n)
  check.py ID --replay F re-run one recorded case verbosely
  check.py --setup       warm the build cache
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, signal, shutil, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
HDIR = os.path.join(HERE, "harness")
CACHE = os.environ.get("VF_CACHE", os.path.join(HERE, ".build"))
NPROC = int(os.environ.get("VF_JOBS", "8"))
sys.path.insert(0, HERE)
from checks import CHECKS, FLAVORS  # noqa: E402


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ build
def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def hdr_hash():
    fs = sorted(glob.glob(SRC + "/*.h")) + sorted(glob.glob(REPO + "/header/*.h")) + sorted(glob.glob(HDIR + "/*.h"))
    return sha(*[read(f) for f in fs], *[os.path.basename(f) for f in fs])


def compile_one(args):
    cmd, src, hh = args
    key = sha(" ".join(cmd), read(src), src, hh)
    obj = os.path.join(CACHE, key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise HarnessError("compile failed: %s\n%s" % (src, r.stdout[-4000:]))
    os.rename(tmp, obj)
    return obj


def build(need):
    """need: set of (driver, flavor) -> {(driver, flavor): binary path}"""
    os.makedirs(CACHE, exist_ok=True)
    hh = hdr_hash()
    jobs, plan = [], {}
    lib_src = sorted(glob.glob(SRC + "/*.c"))
    if not lib_src:
        raise HarnessError("no sources in " + SRC)
    for fl in sorted({f for _, f in need}):
        F = FLAVORS[fl]
        libflags = F["libflags"] + (["-include", os.path.join(HDIR, "vf_shim.h")] if F.get("shim") else [])
        for s in lib_src:
            plan[(fl, "lib", s)] = len(jobs)
            jobs.append(([F["cc"]] + libflags + ["-w", "-I" + SRC], s, hh))
        extra = ["vf_main.cpp", "vf_alloc.cpp" if F.get("shim") else "vf_noshim.cpp"]
        for s in extra:
            plan[(fl, "h", s)] = len(jobs)
            jobs.append(([F["cxx"]] + F["cxxflags"] + ["-I" + HDIR], os.path.join(HDIR, s), hh))
        for d in sorted({d for d, f in need if f == fl}):
            for s in [d + ".cpp"] + CXX_EXTRA.get(d, []):
                plan[(fl, "d", d, s)] = len(jobs)
                cxx = [F["cxx"]] if s.endswith(".cpp") else [F["cc"]]
                fl_ = F["cxxflags"] if s.endswith(".cpp") else F["libflags"]
                jobs.append((cxx + fl_ + ["-w", "-I" + SRC, "-I" + HDIR, "-I" + REPO], os.path.join(HDIR, s), hh))
    order = sorted(range(len(jobs)), key=lambda i: -os.path.getsize(jobs[i][1]))
    objs = [None] * len(jobs)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        futs, same = {}, {}   # two flavours may share an object
        for i in order:
            same.setdefault((tuple(jobs[i][0]), jobs[i][1]), []).append(i)
        for ids in same.values():
            futs[ex.submit(compile_one, jobs[ids[0]])] = ids
        for f in cf.as_completed(futs):
            for i in futs[f]:
                objs[i] = f.result()
    out = {}

    def link(df):
        d, fl = df
        F = FLAVORS[fl]
        lib = [objs[plan[(fl, "lib", s)]] for s in lib_src]
        hs = [objs[i] for k, i in plan.items() if k[0] == fl and k[1] == "h"]
        ds = [objs[i] for k, i in plan.items() if k[0] == fl and k[1] == "d" and k[2] == d]
        key = sha("link", fl, " ".join(F["ldflags"]), *lib, *hs, *ds)
        exe = os.path.join(CACHE, key + ".exe")
        if not os.path.exists(exe):
            tmp = exe + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
            r = subprocess.run([F["cxx"]] + F["ldflags"] + ds + hs + lib + ["-o", tmp, "-lm", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise HarnessError("link failed: %s\n%s" % (df, r.stdout[-4000:]))
            os.rename(tmp, exe)
        else:
            os.utime(exe)
        return df, exe

    with cf.ThreadPoolExecutor(NPROC) as ex:
        for df, exe in ex.map(link, sorted(need)):
            out[df] = exe
    return out


CXX_EXTRA = {"c30_summary": ["c30_pubhdr.c"]}


def prune_cache():
    try:
        fs = [os.path.join(CACHE, f) for f in os.listdir(CACHE)]
        fs.sort(key=os.path.getmtime)
        tot = sum(os.path.getsize(f) for f in fs)
        while tot > 4e9 and fs:
            f = fs.pop(0)
            tot -= os.path.getsize(f)
            os.unlink(f)
    except OSError:
        pass


# ------------------------------------------------------------------ run
ENV = dict(os.environ,
           ASAN_OPTIONS="abort_on_error=0:exitcode=88:detect_leaks=0:halt_on_error=1:allocator_may_return_null=0:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=88",
           MSAN_OPTIONS="exitcode=88:halt_on_error=1:print_stats=0",
           TSAN_OPTIONS="exitcode=88:halt_on_error=1:report_signal_unsafe=0",
           LC_ALL="C")


def crash_key(err, rc):
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        kind = "asan:" + m.group(1)
    m2 = re.search(r"runtime error: ([^\n]*)", err)
    if not kind and m2:
        kind = "ubsan:" + re.sub(r"-?(?:0x)?[0-9a-f]*\d[\w.+-]*", "N", m2.group(1))[:70]
    if not kind and "MemorySanitizer" in err:
        m = re.search(r"MemorySanitizer: ([\w-]+)", err)
        kind = "msan:" + (m.group(1) if m else "?")
    if not kind and "ThreadSanitizer" in err:
        m = re.search(r"ThreadSanitizer: ([\w -]+?)(?: \(|$)", err, re.M)
        kind = "tsan:" + (m.group(1).strip().replace(" ", "-") if m else "?")
    if not kind:
        kind = "signal:%d" % (-rc) if rc < 0 else "status:%d" % rc
    fn = ""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", err):
        if "/src/" in m.group(2) and "/harness/" not in m.group(2) and REPO in m.group(2):
            fn = m.group(1)
            break
    if not fn:
        m = re.search(r"/src/(\w+\.c):\d+:\d+: runtime error", err)
        if m:
            fn = m.group(1)
    return "crash:%s:%s" % (kind, fn or "?")


def run_proc(exe, args, wall):
    with tempfile.TemporaryFile() as ef:
        p = subprocess.Popen([exe] + args, stdout=subprocess.DEVNULL, stderr=ef, env=ENV, start_new_session=True)
        try:
            rc = p.wait(timeout=wall)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = "wall"
        ef.seek(0, 2)
        size = ef.tell()
        ef.seek(max(0, size - 60000) if size > 200000 else 0)
        return rc, ef.read().decode("utf8", "replace")


def run_shard(exe, part, seed, tier, start, end, step, tmp, deadline):
    """-> dict(events, stats, crashes)"""
    events, stats, incon = [], [], []
    cpu = part.get("cpu", 60)
    cur = start
    base = os.path.join(tmp, "%s-%s-%s-%d" % (part["driver"], part["flavor"], part.get("mode", ""), start))
    ncrash = 0
    skipped = 0
    while cur < end:
        out, st = base + ".%d.out" % cur, base + ".%d.st" % cur
        args = ["--seed", str(seed), "--start", str(cur), "--end", str(end), "--step", str(step), "--out", out, "--state", st,
                "--tier", "1" if tier == "thorough" else "0", "--cpu", str(cpu)]
        if part.get("mode"):
            args += ["--mode", part["mode"]]
        rc, err = run_proc(exe, args, max(5, deadline - time.time()))
        if os.path.exists(out):
            with open(out, errors="replace") as f:
                for line in f:
                    try:
                        e = json.loads(line)
                    except ValueError:
                        continue
                    (stats if e["t"] == "stats" else events).append(e)
        if rc == 0:
            break
        try:
            idx = struct.unpack("QQ", read(st))[0] - 1
        except Exception:
            raise HarnessError("driver %s died before its first case (rc %s): %s" % (part["driver"], rc, err[-1500:]))
        if idx < 0 or rc == 2:
            raise HarnessError("driver %s failed to start (rc %s): %s" % (part["driver"], rc, err[-1500:]))
        if rc == "wall":
            incon.append("wall-clock watchdog at case %d" % idx)
            break
        if rc == 99:
            rc2, err2 = run_proc(exe, ["--seed", str(seed), "--start", str(idx), "--end", str(idx + 1), "--step", "1", "--out", out + ".h", "--state", st,
                                       "--tier", "1" if tier == "thorough" else "0", "--cpu", str(cpu * 2)] + (["--mode", part["mode"]] if part.get("mode") else []), max(5, deadline - time.time()))
            if rc2 == 99:
                events.append(dict(t="violation", case=idx, key="hang:" + last_tag(out, part), msg="case used more than %g s of CPU time twice" % (2 * cpu)))
            else:
                incon.append("slow case %d" % idx)
        elif rc == 77:
            events.append(dict(t="violation", case=idx, key="exit:library-ended-the-process", msg="the library called exit()"))
        else:
            lines = [l for l in err.splitlines() if l.strip()]
            events.append(dict(t="violation", case=idx, key=crash_key(err, rc), msg="driver ended with status %s: %s" % (rc, " | ".join(lines[:14])[:1800])))
        # statistics of an interrupted run are lost; count the cases
        stats.append(dict(t="stats", ran=(idx - cur) // step + 1, checks=0, nontrivial=0, distinct=0, outs=0, tags={}))
        ncrash += 1
        cur = idx + step
        if ncrash >= 40:
            skipped += max(0, (end - cur + step - 1) // step)
            incon.append("shard stopped after 40 crashes")
            break
    sigs = set()
    for f in glob.glob(glob.escape(base) + ".*.out.sig"):
        d = read(f)
        sigs.update(struct.unpack("%dQ" % (len(d) // 8), d))
    return dict(events=events, stats=stats, incon=incon, sigs=sigs)


def last_tag(out, part):
    return part["driver"]


# ------------------------------------------------------------------ judge
def load_findings():
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+)\s*(.*)", line)
            if m:
                res.append((m.group(1), m.group(2), m.group(3).strip()))
    return res


def main():
    if "--setup" in sys.argv:
        need = {(p["driver"], p["flavor"]) for c in CHECKS.values() for p in c["parts"]}
        build(need)
        print("built", len(need), "drivers")
        return 0
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    C = CHECKS[pid]
    t0 = time.time()
    prune_cache()
    bins = build({(p["driver"], p["flavor"]) for p in C["parts"]})
    t_build = time.time() - t0
    if "--replay" in sys.argv:
        r = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        part = [p for p in C["parts"] if p["driver"] == r["driver"] and p["flavor"] == r["flavor"] and p.get("mode", "") == r["mode"]][0]
        tmp = tempfile.mkdtemp()
        res = run_shard(bins[(r["driver"], r["flavor"])], part, r["seed"], r["tier"], r["case"], r["case"] + 1, 1, tmp, time.time() + 600)
        for e in res["events"]:
            print(json.dumps(e))
        shutil.rmtree(tmp)
        return 0
    deadline = t0 + float(os.environ.get("VF_WALL", "820" if tier == "quick" else "14000"))
    tmp = tempfile.mkdtemp(prefix="vf-")
    results = []
    scale = float(os.environ.get("VF_SCALE", "1"))
    try:
        tasks = []
        for part in C["parts"]:
            n = int(part[tier if tier in part else "quick"] * scale)
            threaded = part.get("mode") == "threads"
            # threads mode: small batches, so that one crash loses little; several in flight
            nsh = min(n, part.get("shards", 4 if threaded else NPROC))
            for k in range(nsh):
                tasks.append((part, k, n, nsh))
        with cf.ThreadPoolExecutor(NPROC if not any(p.get("mode") == "threads" for p in C["parts"]) else 3) as ex:
            futs = [(t[0], ex.submit(run_shard, bins[(t[0]["driver"], t[0]["flavor"])], t[0], seed, tier, t[1], t[2], t[3], tmp, deadline)) for t in tasks]
            for part, f in futs:
                results.append((part, f.result()))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    # collect
    inc = re.compile(C.get("keys", r"."))
    exc = re.compile(C["exclude"]) if C.get("exclude") else None
    findings = [f for f in load_findings() if f[0] == pid]
    viol, known, samples, tags, incon = {}, {}, [], {}, []
    ran = checks = nontriv = outs = 0
    sigs = set()
    per_part = {}
    for part, r in results:
        name = part["driver"] + "/" + part["flavor"] + ("/" + part["mode"] if part.get("mode") else "")
        pp = per_part.setdefault(name, dict(cases=0, checks=0, outputs_observed=0))
        for s in r["stats"]:
            ran += s["ran"]; checks += s["checks"]; nontriv += s["nontrivial"]; outs += s["outs"]
            pp["cases"] += s["ran"]; pp["checks"] += s["checks"]; pp["outputs_observed"] += s["outs"]
            for k, v in s["tags"].items():
                tags[part["driver"] + ":" + k] = tags.get(part["driver"] + ":" + k, 0) + v
        sigs |= {hash((part["driver"], s)) for s in r["sigs"]}
        incon += r["incon"]
        for e in r["events"]:
            if e["t"] == "sample":
                if len(samples) < 12:
                    samples.append({"driver": part["driver"], "case": e["case"], "what": e["msg"]})
                continue
            key = e["key"]
            if not inc.search(key) or (exc and exc.search(key)):
                continue
            hit = [f for f in findings if f[1] == key]
            if hit:
                known.setdefault(key, [0, hit[0][2]])[0] += 1
                continue
            viol.setdefault(key, []).append((part, e))
    # population monitors: the share of some outcome over all the executions of the run
    shares = {}
    for key, what, of, most in C.get("shares", []):
        b = sum(v for t, v in tags.items() if re.search(of, t))
        a = sum(v for t, v in tags.items() if re.search(of, t) and re.search(what, t))
        shares[key] = "%d of %d, at most %g" % (a, b, most)
        if b >= 40 and a > most * b + 5:
            viol.setdefault(key, []).append((C["parts"][0], dict(case=0, msg="%s observed in %d of %d executions (%s); at most a share of %g is expected" % (what, a, b, of, most))))
    nviol = sum(len(v) for v in viol.values())
    rdir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + "-*.json")):
        os.unlink(f)
    for i, (key, evs) in enumerate(sorted(viol.items())):
        part, e = evs[0]
        path = os.path.join(rdir, "%s-%d.json" % (pid, i))
        json.dump(dict(property=pid, driver=part["driver"], flavor=part["flavor"], mode=part.get("mode", ""), seed=seed, tier=tier, case=e["case"], key=key, msg=e["msg"], count=len(evs),
                       how="python3 /verif/check.py %s --replay %s" % (pid, path)), open(path, "w"), indent=1)
        if i < 25:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  key=%s count=%d case=%d: %s" % (key, len(evs), e["case"], e["msg"][:600]))
    for key, (n, desc) in sorted(known.items()):
        print("KNOWN-FINDING: property=%s key=%s seen=%d %s" % (pid, key, n, desc))
    level = C.get("level", "exploration")
    ev = dict(property=pid, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2), violations=nviol,
              coverage=dict(evaluations=ran, distinct_nontrivial=len(sigs), rule=C["rule"], samples=samples or [{"note": "no sample recorded"}],
                            oracle_checks=checks, library_outputs_observed=outs, parts=per_part, counters=dict(sorted(tags.items())), shares=shares,
                            inconclusive=incon[:50], known_findings_seen={k: v[0] for k, v in known.items()}, build_s=round(t_build, 2)),
              assumptions=C.get("assumptions", []))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d oracle checks, %d outputs, %d violations, %d inconclusive, %.1fs (build %.1fs)" % (
        pid, tier, seed, ran, len(sigs), checks, outs, nviol, len(incon), time.time() - t0, t_build))
    if nviol:
        return 1
    if scale >= 1 and (ran < C.get("min_cases", 1) or len(sigs) < C.get("min_distinct", 1)):
        print("INCONCLUSIVE: too little was observed (%d cases, %d distinct)" % (ran, len(sigs)))
        return 3
    miss = [t for t in C.get("need", []) if not tags.get(t)]
    if scale >= 1 and miss:
        print("INCONCLUSIVE: never reached: " + ", ".join(miss))
        return 3
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except HarnessError as e:
        print("HARNESS-ERROR", e)
        sys.exit(4)
