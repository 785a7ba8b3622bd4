#!/usr/bin/env python3
"""Driver: builds /repo's working tree under the simulator, searches seeds, gates, minimises, reports, writes evidence.

  vp.py check C01           run the check (tier from VERIF_TIER, seed from VERIF_SEED)
  vp.py replay FILE         replay a violation file against the current tree
  vp.py build               build only
  vp.py determinism [N]     run N seeds of every workload in two ways and diff the event hashes
  vp.py hunt WL SECONDS     search one workload, print the first violation
"""
import sys, os, json, hashlib, subprocess, time, glob, threading, shutil, tempfile, re, array

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, ".build"))
sys.path.insert(0, VERIF)
from props import PROPS, PROBES  # noqa: E402

CXX = "g++"
INC = ["-I" + REPO, "-I" + os.path.join(REPO, "externals/rapidjson/include"), "-I" + os.path.join(VERIF, "sim")]
COMMON = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-fno-pie", "-w"]
INSTR = COMMON + ["-O1", "-DNDEBUG", "-DDAL_SIMULATION", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "-fno-optimize-sibling-calls"]
RTF = COMMON + ["-O2", "-fno-builtin", "-fno-tree-loop-distribute-patterns", "-fno-stack-protector"]
LINK = ["-no-pie", "-rdynamic", "-Wl,--unresolved-symbols=ignore-in-object-files", "-ldl", "-lpthread"]
JOBS = int(os.environ.get("VP_JOBS", "8"))
FAULTS = ["spurious_wakeup", "signal_pick", "thread_create_EAGAIN", "alloc_failure", "open_error", "write_ENOSPC", "write_EIO",
          "short_write", "EINTR", "read_EIO", "short_read", "close_error", "clock_jump", "thread_stall", "addr_reuse",
          "task_exception", "pool_stop_restart", "corrupt_or_truncated_file", "user3"]


def die(msg):
    print("ERROR " + msg, flush=True)
    sys.exit(3)


def sha(b):
    return hashlib.sha256(b).hexdigest()


def read(p):
    with open(p, "rb") as f:
        return f.read()


# ----------------------------------------------------------------------------------------------------------- build
def sources():
    out = []
    for base in ("dal", "public/src"):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            rel = os.path.relpath(d, REPO)
            if rel.startswith("dal/auto") or rel.startswith("dal/excel"):
                continue
            for f in fs:
                if f.endswith(".cpp") and not (rel == "dal/storage" and f.startswith("_repository")):
                    out.append(os.path.join(d, f))
    return sorted(out)


def header_hash():
    h = hashlib.sha256()
    for base in ("dal", "public/src"):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".h", ".inc")) or f.startswith("_repository"):
                    h.update(f.encode())
                    h.update(read(os.path.join(d, f)))
    for f in sorted(glob.glob(os.path.join(VERIF, "sim", "*.hpp"))):
        h.update(read(f))
    return h.hexdigest()


def compile_one(src, flags, key):
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        return obj, None
    tmp = obj + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
    r = subprocess.run([CXX] + flags + INC + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode:
        return None, "%s:\n%s" % (src, r.stderr[-3000:])
    os.replace(tmp, obj)
    return obj, None


def build(groups):
    """One binary per workload group (wl_<group>.cpp + the whole library + the runtime)."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    hh = header_hash()
    jobs = []
    for s in sources():
        jobs.append(("lib", s, INSTR))
    for g in groups:
        jobs.append((g, os.path.join(VERIF, "sim", "wl_%s.cpp" % g), INSTR))
    jobs.append(("rt", os.path.join(VERIF, "sim", "rt.cpp"), RTF))
    jobs.sort(key=lambda j: (j[0] == "lib", -os.path.getsize(j[1]) if j[0] == "lib" else 0))
    res = {}
    errs = []
    lock = threading.Lock()
    it = iter(jobs)

    def work():
        while True:
            with lock:
                j = next(it, None)
            if j is None or errs:
                return
            kind, src, flags = j
            key = sha(("\0".join(flags) + src + hh).encode() + read(src))[:32]
            o, e = compile_one(src, flags, key)
            with lock:
                if e:
                    errs.append(e)
                else:
                    res[(kind, src)] = o
    ts = [threading.Thread(target=work) for _ in range(JOBS)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        die("build failed: " + errs[0])
    libs = [o for (k, s), o in sorted(res.items()) if k == "lib"]
    rt = [o for (k, s), o in res.items() if k == "rt"]
    bins = {}
    for g in groups:
        objs = rt + [o for (k, s), o in res.items() if k == g] + libs
        key = sha("\0".join(objs).encode())[:24]
        out = os.path.join(BUILD, "sim_%s_%s" % (g, key))
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            r = subprocess.run([CXX, "-o", tmp] + objs + LINK, capture_output=True, text=True)
            if r.returncode:
                die("link failed: " + r.stderr[-3000:])
            os.replace(tmp, out)
        bins[g] = out
    # keep the cache small
    for g in groups:
        for old in glob.glob(os.path.join(BUILD, "sim_%s_*" % g)):
            if old != bins[g] and not ".tmp" in old and time.time() - os.path.getmtime(old) > 3600:
                os.unlink(old)
    return bins


# ---------------------------------------------------------------------------------------------------------- server
class Server:
    def __init__(self, binary, cpu=None):
        env = {"PATH": "/usr/bin:/bin", "TZ": "UTC0", "LC_ALL": "C"}
        pre = (lambda: os.sched_setaffinity(0, {cpu})) if cpu is not None else None
        self.p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, preexec_fn=pre,
                                  stderr=subprocess.DEVNULL)

    def cmd(self, line):
        self.p.stdin.write((line + "\n").encode())
        self.p.stdin.flush()
        out = []
        while True:
            l = self.p.stdout.readline()
            if not l:
                return out + ["EOF"]
            l = l.decode(errors="replace").rstrip("\n")
            out.append(l)
            if l.startswith(("STAT ", "DONE ", "ERR ")):
                return out

    def close(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass
        try:
            self.p.kill()
        except Exception:
            pass
        self.p.wait()


def cpus():
    return sorted(os.sched_getaffinity(0))


class Trace:
    def __init__(self, path):
        self.f, self.s, self.d, self.pcs, self.head, self.notes = [], [], [], [], {}, ""
        txt = open(path, errors="replace").read()
        head, _, self.notes = txt.partition("\nnotes\n")
        for l in head.split("\n"):
            k, _, v = l.partition(" ")
            if k == "s":
                a = v.split()
                self.s.append((int(a[0]), int(a[1]), int(a[2]), a[3] if len(a) > 3 else "0"))
            elif k == "f":
                a = v.split()
                self.f.append((int(a[0]), int(a[1]), int(a[2]), int(a[3]) if len(a) > 3 else 0))
            elif k == "d":
                self.d.append(int(v))
            elif k == "pc":
                a, _, b = v.partition(" ")
                self.pcs.append((a, b))
            else:
                self.head[k] = v

    @property
    def cls(self):
        return self.head.get("class", "")

    @property
    def status(self):
        return int(self.head.get("status", 0))


def write_replay(path, wl, seed, s, f, d, extra=""):
    with open(path, "w") as o:
        o.write("workload %s\nseed %s\n" % (wl, seed))
        o.write(extra)
        for i in d:
            o.write("d %d\n" % i)
        for e in s:
            o.write("s %d %d %d %s\n" % (e[0], e[1], e[2], e[3]))
        for e in f:
            o.write("f %d %d %d %d\n" % (e[0], e[1], e[2], e[3]))


def symbolise(binary, pcs):
    out = []
    for pc, lab in pcs:
        v = int(pc, 16)
        if v == 0:
            out.append((lab, "(library code)"))
            continue
        r = subprocess.run(["addr2line", "-Cfpie", binary, hex(v - 1)], capture_output=True, text=True).stdout
        lines = []
        for l in r.strip().split("\n"):
            l = l.strip().replace("(inlined by) ", "")
            if "/usr/include/c++" in l or "??" in l:
                continue
            lines.append(re.sub(r"\(discriminator \d+\)", "", l.replace(REPO + "/", "").replace(VERIF + "/", "")))
        if not lines:
            lines = [r.strip().split("\n")[0]]
        out.append((lab, " <- ".join(lines[:3])))
    return out


def shorten(sym):
    return sym if len(sym) < 300 else sym[:300] + "..."


# --------------------------------------------------------------------------------------------------------- minimise
class Minimiser:
    def __init__(self, binary, wl, seed, cls, workdir, budget_s):
        self.bin, self.wl, self.seed, self.cls, self.dir = binary, wl, seed, cls, workdir
        self.end = time.time() + budget_s
        self.servers = []
        cs = cpus()
        for i in range(min(JOBS, len(cs))):
            self.servers.append(Server(binary, cs[i]))
        self.n = 0

    def close(self):
        [s.close() for s in self.servers]

    def test_many(self, cands):
        """run candidates in parallel, return list of Trace or None"""
        res = [None] * len(cands)
        idx = iter(range(len(cands)))
        lock = threading.Lock()

        def work(k):
            while True:
                with lock:
                    i = next(idx, None)
                if i is None or time.time() > self.end:
                    return
                s, f, d = cands[i]
                a = os.path.join(self.dir, "c%d.in" % k)
                b = os.path.join(self.dir, "c%d.out" % k)
                write_replay(a, self.wl, self.seed, s, f, d)
                r = self.servers[k].cmd("replay %s %s" % (a, b))
                if r[-1].startswith("DONE 2 "):
                    t = Trace(b)
                    if t.cls == self.cls:
                        res[i] = t
        ts = [threading.Thread(target=work, args=(k,)) for k in range(len(self.servers))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        return res

    def ddmin(self, items, mk):
        """items: list; mk(list)->candidate. keeps the violation class."""
        n = 2
        while len(items) >= 1 and time.time() < self.end:
            n = min(n, len(items))
            size = (len(items) + n - 1) // n
            chunks = [items[i:i + size] for i in range(0, len(items), size)]
            cands, comp = [], []
            for i in range(len(chunks)):
                rest = [x for j, c in enumerate(chunks) if j != i for x in c]
                comp.append(rest)
                cands.append(mk(rest))
            res = self.test_many(cands)
            hit = next((i for i, r in enumerate(res) if r), None)
            if hit is not None:
                items = comp[hit]
                n = max(n - 1, 2)
                if not items:
                    break
            else:
                if n >= len(items):
                    break
                n = min(len(items), n * 2)
        return items

    def run(self, tr):
        s, f, d, nops = list(tr.s), list(tr.f), list(tr.d), int(tr.head.get("nops", 0))
        # empty schedule / no faults first
        for cand in (([], [], d), (s, [], d), ([], f, d)):
            r = self.test_many([cand])[0]
            if r:
                s, f = list(cand[0]), list(cand[1])
                break
        for _ in range(2):
            ops = [i for i in range(nops) if i not in d]
            if ops:
                keep = self.ddmin(ops, lambda k: (s, f, sorted(set(range(nops)) - set(k))))
                d = sorted(set(range(nops)) - set(keep))
            f = self.ddmin(f, lambda k: (s, k, d)) if f else f
            s = self.ddmin(s, lambda k: (k, f, d)) if s else s
        return s, f, d


# ----------------------------------------------------------------------------------------------------------- search
def search(binary, wl, seed0, seconds, workdir, jobs, tag, limit=None):
    """jobs servers, interleaved seeds. returns (stats, violations[])"""
    stats, viols, errs = [], [], []
    lock = threading.Lock()
    stop = threading.Event()
    cs = cpus()
    end = time.time() + seconds

    def work(k):
        srv = Server(binary, cs[k % len(cs)])
        seed = seed0 + k
        try:
            while not stop.is_set():
                left = end - time.time()
                if left <= 0.05:
                    break
                ms = int(min(left, 2.0) * 1000)
                out = srv.cmd("batch %s %d %d %d %d %s" % (wl, seed, jobs, limit or 1000000000, ms, workdir))
                last = out[-1]
                if not last.startswith("STAT "):
                    with lock:
                        errs.append("simulator server ended: %s" % out[-3:])
                    stop.set()
                    break
                st = json.loads(last[5:])
                with lock:
                    stats.append(st)
                    for l in out[:-1]:
                        if l.startswith("VIOL "):
                            _, sd, status, cls, path = l.split(" ", 4)
                            viols.append((int(sd), int(status), cls, path))
                seed = st["next_seed"]
                if st["viol"]:
                    break
                if limit:
                    break
        finally:
            srv.close()

    ts = [threading.Thread(target=work, args=(k,)) for k in range(jobs)]
    [t.start() for t in ts]
    while any(t.is_alive() for t in ts):
        time.sleep(0.1)
        if viols:
            stop.set()
    [t.join() for t in ts]
    if errs:
        die(errs[0])
    return stats, viols


def merge(stats):
    m = {}
    for s in stats:
        for k, v in s.items():
            if isinstance(v, list):
                o = m.setdefault(k, [0] * len(v))
                for i, x in enumerate(v):
                    o[i] += x
            elif k == "maxthreads":
                m[k] = max(m.get(k, 0), v)
            else:
                m[k] = m.get(k, 0) + v
    return m


def known_findings():
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def match_known(prop, cls, syms):
    txt = " ".join(s for _, s in syms)
    for f in known_findings()["findings"]:
        if f["property"] == prop and f["class"] == cls and all(x in txt for x in f["contains"]):
            return f
    return None


class Gate(Exception):
    pass


def handle_violation(prop, binary, wl, viol, workdir, quickmin=40):
    """gate + minimise; returns (replay path, trace, syms); raises Gate if the violation does not reproduce"""
    seed, status, cls, path = viol
    if status == 3:
        raise Gate("simulator internal error: " + Trace(path).head.get("msg", ""))
    t0 = Trace(path)
    # gate 1: same seed twice, fresh process each, identical event hash
    hashes = []
    for i in range(2):
        srv = Server(binary, cpus()[i % len(cpus())])
        srv.cmd("one %s %d %s" % (wl, seed, os.path.join(workdir, "g%d" % i)))
        srv.close()
        t = Trace(os.path.join(workdir, "g%d" % i))
        hashes.append((t.head.get("hash"), t.cls))
    if hashes[0] != hashes[1] or hashes[0][1] != cls or hashes[0][0] != t0.head.get("hash"):
        raise Gate("gate: seed %d of %s did not reproduce identically: %s vs %s" % (seed, wl, hashes, (t0.head.get("hash"), cls)))
    # gate 2: replay of the recorded trace in a fresh process
    rp = os.path.join(workdir, "full.replay")
    write_replay(rp, wl, seed, t0.s, t0.f, t0.d)
    srv = Server(binary)
    srv.cmd("replay %s %s" % (rp, os.path.join(workdir, "full.out")))
    srv.close()
    t1 = Trace(os.path.join(workdir, "full.out"))
    if t1.cls != cls or t1.head.get("hash") != t0.head.get("hash"):
        raise Gate("gate: replay of seed %d of %s diverged (%s %s vs %s %s)" % (seed, wl, t1.cls, t1.head.get("hash"), cls, t0.head.get("hash")))
    m = Minimiser(binary, wl, seed, cls, workdir, quickmin)
    try:
        s, f, d = m.run(t0)
    finally:
        m.close()

    def twice(s, f, d):
        fin = os.path.join(workdir, "min.replay")
        write_replay(fin, wl, seed, s, f, d)
        outs = []
        for i in range(2):
            srv = Server(binary)
            srv.cmd("replay %s %s" % (fin, os.path.join(workdir, "min.out")))
            srv.close()
            outs.append(Trace(os.path.join(workdir, "min.out")))
        return outs[0] if outs[0].cls == cls and outs[0].head["hash"] == outs[1].head["hash"] else None
    t = twice(s, f, d)
    if not t:  # fall back to the whole trace, which passed gate 2
        s, f, d = t0.s, t0.f, t0.d
        t = twice(s, f, d)
    if not t:
        raise Gate("gate: replay of seed %d of %s does not reproduce twice" % (seed, wl))
    syms = symbolise(binary, t.pcs)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    name = os.path.join(VERIF, "replays", "%s_%s_%d.replay" % (prop, wl, seed))
    extra = "class %s\nhash %s\nmsg %s\n" % (cls, t.head["hash"], t.head.get("msg", ""))
    for lab, sy in syms:
        extra += "# %s: %s\n" % (lab, shorten(sy))
    extra += "# minimised: %d of %d schedule entries, %d of %d faults, %d of %s operations dropped\n" % (
        len(s), len(t0.s), len(f), len(t0.f), len(d), t0.head.get("nops"))
    write_replay(name, wl, seed, s, f, d, extra)
    with open(name, "a") as o:
        o.write("notes\n" + t.notes)
    return name, t, syms


def do_check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    vseed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[prop]
    t_begin = time.time()
    groups = sorted({g for g, _, _ in P["workloads"]})
    bins = build(groups)
    t_built = time.time()
    total = float(os.environ.get("VP_SECONDS", P.get("quick_s", 40) if tier == "quick" else P.get("thorough_s", 700)))
    wsum = sum(w for _, _, w in P["workloads"])
    workdir = tempfile.mkdtemp(prefix="vp_%s_" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    rc = 0
    allstats = {}
    found = []
    known = {}
    gates = []
    try:
        seedbase = (vseed * 1000003 + int(sha(prop.encode())[:6], 16)) * 1000000
        for g, wl, w in P["workloads"]:
            secs = total * w / wsum
            endw = time.time() + secs
            sb = seedbase
            st_all = []
            while True:
                left = endw - time.time()
                if left <= 0.1:
                    break
                stats, viols = search(bins[g], wl, sb, left, workdir, JOBS, prop)
                st_all += stats
                if not viols:
                    break
                sb = max(s["next_seed"] for s in stats) + 1
                for v in sorted(viols):
                    t0 = Trace(v[3])
                    kf = match_known(prop, v[2], symbolise(bins[g], t0.pcs))
                    if kf:
                        known[kf["id"]] = kf
                        continue
                    try:
                        name, t, syms = handle_violation(prop, bins[g], wl, v, workdir)
                    except Gate as e:  # a violation that does not replay is not reported; search on for one that does
                        gates.append(str(e))
                        if len(gates) > 24:
                            break
                        continue
                    found.append((name, t, syms))
                    rc = 1
                    break
                if rc or len(gates) > 24:
                    break
            allstats[wl] = merge(st_all)
            if rc:
                break
        # distinct interleavings, counted over every run of this check
        seen, nontriv = set(), set()
        for p in glob.glob(os.path.join(workdir, "ih.*")):
            a = array.array("Q")
            b = read(p)
            a.frombytes(b[:len(b) // 8 * 8])
            for i in range(0, len(a) - 1, 2):
                seen.add(a[i])
                if a[i + 1]:
                    nontriv.add(a[i])
        write_evidence(prop, tier, vseed, P, allstats, seen, nontriv, bins, workdir, time.time() - t_begin, t_built - t_begin, found, seedbase)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    for k, f in known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    for name, t, syms in found:
        print("%s in workload %s (seed %s): %s" % (t.cls, t.head.get("workload"), t.head.get("seed"), t.head.get("msg", "")))
        for lab, sy in syms[:12]:
            print("    %-12s %s" % (lab, shorten(sy)))
        print("VIOLATION property=%s replay=%s" % (prop, name), flush=True)
    if rc == 0 and gates:
        die("violations were seen that do not replay: " + gates[0])
    if rc == 0:
        tot = merge(list(allstats.values()))
        print("%s held: %d simulated runs, %d distinct interleavings, %.1f s" % (prop, tot.get("runs", 0), len(nontriv), time.time() - t_begin))
    return rc


def write_evidence(prop, tier, seed, P, allstats, seen, nontriv, bins, workdir, wall, build_s, found, seedbase):
    tot = merge(list(allstats.values()))
    search_s = max(1e-9, wall - build_s)
    # one sample run per workload, written out
    samples = []
    for g, wl, _ in P["workloads"][:3]:
        out = os.path.join(workdir, "sample")
        srv = Server(bins[g])
        srv.cmd("one %s %d %s" % (wl, seedbase, out))
        srv.close()
        t = Trace(out)
        samples.append({"workload": wl, "seed": seedbase, "status": t.status, "steps": int(t.head.get("steps", 0)),
                        "switches": int(t.head.get("switches", 0)), "threads": int(t.head.get("threads", 0)),
                        "schedule_head": ["step %d -> T%d" % (e[0], e[1]) for e in t.s[:10]],
                        "faults": ["%s #%d value %d at step %d" % (FAULTS[e[0]], e[1], e[2], e[3]) for e in t.f[:10]],
                        "events": t.notes.strip().split("\n")[:14]})
    fired = {FAULTS[i]: n for i, n in enumerate(tot.get("fired", [])) if n}
    probes = {}
    for wl, st in allstats.items():
        for i, n in enumerate(st.get("probes", [])):
            nm = PROBES.get(wl, {}).get(i)
            if nm or n:
                probes["%s: %s" % (wl, nm or "probe%d" % i)] = n
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot.get("runs", 0),
            "distinct_nontrivial": len(nontriv),
            "rule": "one evaluation = one simulated run of a workload under one seed (schedule, faults and operations all drawn from it); "
                    "distinct = different hash of the context-switch sequence (thread switched to, program point); non-trivial = more than 4 context switches",
            "distinct_interleavings_including_trivial": len(seen),
            "runs_per_hour": int(tot.get("runs", 0) * 3600 / search_s),
            "seeds_per_hour": int(tot.get("runs", 0) * 3600 / search_s),
            "simulated_seconds": tot.get("simns", 0) / 1e9,
            "scheduling_points": tot.get("steps", 0),
            "context_switches": tot.get("switches", 0),
            "preemptions": tot.get("preempts", 0),
            "instrumented_memory_accesses": tot.get("accesses", 0),
            "synchronisation_operations": tot.get("syncs", 0),
            "max_threads_in_a_run": tot.get("maxthreads", 0),
            "faults_fired": fired,
            "runs_with_faults": tot.get("runs_with_faults", 0),
            "probes": probes,
            "per_workload_runs": {k: v.get("runs", 0) for k, v in allstats.items()},
            "real_code": P["real"],
            "stubs": P["stubs"],
            "samples": samples,
        },
        "assumptions": P.get("assumptions", []) + [
            "sequentially consistent interleavings; weaker orderings are covered only through happens-before race detection",
            "code inside libstdc++.so/libc is not a preemption point; its synchronisation is modelled by the runtime"],
        "wall_s": round(wall, 2),
        "violations": len(found),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as o:
        json.dump(ev, o, indent=1)
    os.replace(p + ".tmp", p)


def wl_group(wl):
    for P in PROPS.values():
        for g, w, _ in P["workloads"]:
            if w == wl:
                return g
    die("unknown workload " + wl)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "check":
        return do_check(a[1])
    if a[0] == "build":
        t = time.time()
        build(sorted({g for P in PROPS.values() for g, _, _ in P["workloads"]}))
        print("built in %.1f s" % (time.time() - t))
        return 0
    if a[0] == "replay":
        t = Trace(a[1])
        wl = t.head["workload"]
        g = wl_group(wl)
        b = build([g])[g]
        out = a[1] + ".out"
        srv = Server(b)
        print(srv.cmd("replay %s %s" % (os.path.abspath(a[1]), os.path.abspath(out)))[-1])
        srv.close()
        t2 = Trace(out)
        os.unlink(out)
        print("class %s (recorded %s), hash %s (recorded %s)" % (t2.cls, t.cls, t2.head.get("hash"), t.head.get("hash")))
        print(t2.head.get("msg", ""))
        for lab, sy in symbolise(b, t2.pcs):
            print("    %-12s %s" % (lab, shorten(sy)))
        return 1 if t2.status == 2 else 0
    if a[0] == "hunt":
        g = wl_group(a[1])
        b = build([g])[g]
        wd = tempfile.mkdtemp(prefix="vp_hunt_")
        stats, viols = search(b, a[1], int(a[3]) if len(a) > 3 else 1, float(a[2]), wd, JOBS, "hunt")
        m = merge(stats)
        m["probes"] = {PROBES.get(a[1], {}).get(i, i): n for i, n in enumerate(m.get("probes", [])) if n or i in PROBES.get(a[1], {})}
        m["fired"] = {FAULTS[i]: n for i, n in enumerate(m.get("fired", [])) if n}
        print(m)
        for v in sorted(viols)[:3]:
            t = Trace(v[3])
            print(v[0], v[2], t.head.get("msg"))
            for lab, sy in symbolise(b, t.pcs)[:14]:
                print("    %-12s %s" % (lab, shorten(sy)))
        if viols and "-m" in a:
            n, t, sy = handle_violation("HUNT", b, a[1], min(viols), wd)
            print("minimised", n)
            print(open(n).read()[:4000])
        shutil.rmtree(wd)
        return 0
    if a[0] == "determinism":
        n = int(a[1]) if len(a) > 1 else 40
        groups = sorted({g for P in PROPS.values() for g, _, _ in P["workloads"]})
        bins = build(groups)
        wd = tempfile.mkdtemp(prefix="vp_det_")
        bad = 0
        done = 0
        todo = sorted({(g, w) for P in PROPS.values() for g, w, _ in P["workloads"]})
        lock = threading.Lock()
        it = iter([(g, w, s) for g, w in todo for s in range(1, n + 1)])

        def work(k):
            nonlocal bad, done
            local = {}
            while True:
                with lock:
                    j = next(it, None)
                if j is None:
                    break
                g, w, s = j
                if g not in local:
                    local[g] = Server(bins[g])
                if (g, w) not in local:  # earlier runs in the same server must not matter
                    local[g, w] = local[g].cmd("batch %s %d 1 60 20000 %s" % (w, 1000000 + 1000 * k, wd))
                a_, b_, c_ = [os.path.join(wd, "%d.%s" % (k, x)) for x in "abc"]
                local[g].cmd("one %s %d %s" % (w, s, a_))
                srv = Server(bins[g])  # fresh process
                srv.cmd("one %s %d %s" % (w, s, b_))
                t1, t2 = Trace(a_), Trace(b_)
                write_replay(c_ + "r", w, s, t1.s, t1.f, t1.d)
                srv.cmd("replay %s %s" % (c_ + "r", c_))
                srv.close()
                t3 = Trace(c_)
                h = {t.head.get("hash") for t in (t1, t2, t3)}
                with lock:
                    done += 1
                    if len(h) != 1 or t1.notes != t2.notes or t1.notes != t3.notes:
                        bad += 1
                        print("NONDETERMINISM", w, s, [t.head.get("hash") for t in (t1, t2, t3)], [t.head.get("steps") for t in (t1, t2, t3)])
            [x.close() for x in local.values() if isinstance(x, Server)]
        ts = [threading.Thread(target=work, args=(k,)) for k in range(int(os.environ.get("VP_DET_JOBS", "16")))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        shutil.rmtree(wd)
        print("determinism: %d seed runs x3 (same server, fresh process, replay), %d divergences" % (done, bad))
        return 1 if bad else 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
