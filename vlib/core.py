"""Runner shared by all checks: builds the instrumented code from /repo's working tree,
launches the MPI harness drivers, collects event logs and sanitizer reports, routes every
violation through the known-findings file and writes the evidence file."""
import concurrent.futures as cf
import fcntl, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
T0 = time.time()
CORES = 8


class HarnessError(Exception):
    pass


def base_env():
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE).stdout
    env = dict(x.split("=", 1) for x in out.decode().split("\0") if "=" in x)
    env["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    env["CCACHE_MAXSIZE"] = "3G"
    env["TMPDIR"] = "/tmp"
    return env


ENV = None


def env():
    global ENV
    if ENV is None:
        ENV = base_env()
    return dict(ENV)


# ----------------------------------------------------------------------- build
def _hash_tree(root):
    res = {}
    for d, dirs, files in os.walk(root):
        dirs[:] = [x for x in dirs if x not in (".git", "_build")]
        for f in files:
            p = os.path.join(d, f)
            try:
                st = os.stat(p)
                with open(p, "rb") as fh:
                    res[os.path.relpath(p, root)] = (hashlib.sha1(fh.read()).hexdigest(), st.st_mtime)
            except OSError:
                pass
    return res


def build(targets, variant="asan"):
    """Incremental build of `targets` from REPO's working tree; content changes are honoured
    even where file times would hide them."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock." + variant), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    bdir = os.path.join(BUILD, variant)
    e = env()
    e["ASAN_OPTIONS"] = "detect_leaks=0"
    t = time.time()
    try:
        if not os.path.exists(os.path.join(bdir, "build.ninja")):
            r = subprocess.run([os.path.join(V, "build_cfg.sh"), bdir, REPO, variant], env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                sys.stderr.write(r.stdout.decode(errors="replace")[-4000:])
                raise HarnessError("configure failed")
        man = os.path.join(bdir, "vh_manifest.json")
        old = {}
        if os.path.exists(man):
            try:
                old = json.load(open(man))
            except ValueError:
                old = {}
        cur = _hash_tree(os.path.join(REPO, "src"))
        # a changed file whose time did not move past the last build would be missed by ninja
        if old:
            stamp = old.get("stamp", 0)
            for f, (h, mt) in cur.items():
                o = old.get("files", {}).get(f)
                if (o is None or o != h) and mt <= stamp:
                    os.utime(os.path.join(REPO, "src", f))
        r = subprocess.run(["ninja", "-C", bdir, "-j", str(CORES)] + list(targets), env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        log = r.stdout.decode(errors="replace")
        if r.returncode:
            sys.stderr.write(log[-6000:])
            raise HarnessError("build failed")
        files = dict(old.get("files", {}))
        # record only what this build certainly has seen: everything that was compared
        files = {f: h for f, (h, _) in cur.items()}
        pend = old.get("targets", [])
        json.dump({"stamp": t, "files": files, "targets": sorted(set(pend) | set(targets))}, open(man, "w"))
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()
    return bdir, time.time() - t


# ----------------------------------------------------------------------- running
class Job:
    """One mpirun of a driver over a list of cases."""

    def __init__(self, name, exe, args, np, cases=None, text=None, meta=None, timeout=120, cwd_files=None, env=None, serial=False, variant="asan", ok_codes=(0,)):
        self.name, self.exe, self.args, self.np = name, exe, list(args), np
        self.cases = cases or {}
        self.text = text
        self.meta = meta
        self.timeout = timeout
        self.cwd_files = cwd_files or {}
        self.env = env or {}
        self.serial = serial
        self.variant = variant
        self.ok_codes = ok_codes


class Result:
    pass


LIVE = {}
LIMIT = int(os.environ.get("VERIF_JOB_TIMEOUT", "100000"))


def _kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def _term(sig, frm):
    for d, p in list(LIVE.items()):
        _kill(p)
        subprocess.run(["pkill", "-9", "-f", d + "/"])
        shutil.rmtree(d, ignore_errors=True)
    os._exit(3)


if threading.current_thread() is threading.main_thread():
    signal.signal(signal.SIGTERM, _term)
    signal.signal(signal.SIGINT, _term)


_SAN = re.compile(r"(ERROR: AddressSanitizer|runtime error:|AddressSanitizer:DEADLYSIGNAL)")


def parse_reports(d):
    """Sanitizer reports as (key, text); the key names kind, source file and function."""
    reps = []
    for f in sorted(os.listdir(d)):
        if not f.startswith("san."):
            continue
        txt = open(os.path.join(d, f), errors="replace").read()
        blocks, cur = [], []
        for line in txt.splitlines():
            if _SAN.search(line) and cur and _SAN.search("\n".join(cur)):
                blocks.append(cur)
                cur = []
            cur.append(line)
        if cur:
            blocks.append(cur)
        for b in blocks:
            t = "\n".join(b)
            m = re.search(r"AddressSanitizer: ([A-Za-z-]+)", t)
            if m:
                kind = "asan:" + m.group(1)
            else:
                m = re.search(r"runtime error: (.*)", t)
                if not m:
                    continue
                msg = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(1))
                kind = "ubsan:" + msg[:60].strip()
            # first frame inside the code under test
            site = ""
            for fm in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)", t):
                if fm.group(2).startswith(REPO + "/"):
                    fn = re.sub(r"<.*>|\(.*\)", "", fm.group(1))
                    site = os.path.basename(fm.group(2)) + ":" + fn.split("::")[-1].strip()
                    break
            if not site:
                m = re.search(r"(/\S+?):(\d+):\d+: runtime error", t)
                if m:
                    site = os.path.basename(m.group(1))
            reps.append((kind + "@" + (site or "outside"), t[:6000], bool(site)))
    return reps


def run_job(job, keep=False):
    res = Result()
    bdir = os.path.join(BUILD, job.variant)
    d = tempfile.mkdtemp(prefix="vh.", dir="/tmp")
    res.dir = d
    try:
        for n, c in job.cwd_files.items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if isinstance(c, bytes):
                open(p, "wb").write(c)
            else:
                open(p, "w").write(c)
        if job.text is not None:
            open(os.path.join(d, "cases.txt"), "w").write(job.text)
        e = env()
        e["ASAN_OPTIONS"] = ("detect_leaks=0:halt_on_error=1:exitcode=66:log_path=%s/san.a:detect_stack_use_after_return=0:"
                             "max_malloc_fill_size=4096:malloc_fill_byte=190:handle_abort=0:print_legend=0:detect_odr_violation=0" % d)
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=0:log_path=%s/san.u" % d
        e["PETSC_OPTIONS"] = "-no_signal_handler"     # a crash is AddressSanitizer's to report
        e["HOME"] = "/root"
        # shared memory of this launch under its own name: job numbers may repeat in another process name space
        shm = "/dev/shm/" + os.path.basename(d)
        os.makedirs(shm, exist_ok=True)
        for k in ("btl_vader", "osc_sm", "osc_rdma"):
            e["OMPI_MCA_%s_backing_directory" % k] = shm
        e.update(job.env)
        exe = job.exe if job.exe.startswith("/") else os.path.join(bdir, job.exe)
        # every rank gets its own error file: reports of two ranks must not interleave
        wrap = ["/bin/sh", "-c", 'exec "$0" "$@" 2>san.err.${OMPI_COMM_WORLD_RANK:-0}', exe] + [a.replace("@D", d) for a in job.args]
        cmd = wrap if job.serial else ["mpiexec", "--allow-run-as-root", "-n", str(job.np)] + wrap
        res.cmd = cmd
        t = time.time()
        so = open(os.path.join(d, "stdout"), "wb")
        se = open(os.path.join(d, "stderr"), "wb")
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=so, stderr=se, stdin=subprocess.DEVNULL, start_new_session=True)
        LIVE[d] = p
        res.hang = False
        try:
            p.wait(min(job.timeout, LIMIT))
        except subprocess.TimeoutExpired:
            res.hang = True
        _kill(p)
        p.wait()
        # stray ranks keep the scratch directory's name in their command line
        subprocess.run(["pkill", "-9", "-f", d + "/"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        LIVE.pop(d, None)
        so.close()
        se.close()
        res.rc = p.returncode
        res.wall = time.time() - t
        res.stdout = open(os.path.join(d, "stdout"), errors="replace").read()
        res.stderr = open(os.path.join(d, "stderr"), errors="replace").read()
        for r in range(job.np):
            p2 = os.path.join(d, "san.err.%d" % r)
            if os.path.exists(p2):
                res.stderr += open(p2, errors="replace").read()[-20000:]
        res.ranks = []
        for r in range(job.np):
            recs = []
            fn = os.path.join(d, "out.%d" % r)
            if os.path.exists(fn):
                for line in open(fn, errors="replace"):
                    try:
                        recs.append(json.loads(line))
                    except ValueError:
                        recs.append({"t": "torn", "line": line[:200]})
            res.ranks.append(recs)
        res.files = {}
        for root, _, fs in os.walk(d):
            for f in fs:
                if f.startswith(("san.", "out.")) or f in ("stdout", "stderr", "cases.txt"):
                    continue
                rel = os.path.relpath(os.path.join(root, f), d)
                if rel in job.cwd_files:
                    continue
                p2 = os.path.join(root, f)
                if os.path.getsize(p2) < 64 << 20:
                    res.files[rel] = open(p2, "rb").read()
        res.reports = parse_reports(d)
        # the case each rank was in when it stopped
        res.last = []
        for recs in res.ranks:
            cur = None
            for x in recs:
                if x.get("t") == "begin":
                    cur = x.get("case")
                elif x.get("t") == "finished":
                    cur = "finished"
            res.last.append(cur)
        res.finished = all(x == "finished" for x in res.last)
    finally:
        shutil.rmtree("/dev/shm/" + os.path.basename(d), ignore_errors=True)
        if not keep:
            shutil.rmtree(d, ignore_errors=True)
    return res


class Pool:
    """Runs jobs side by side within a budget of cores."""

    def __init__(self, cores=CORES + 2):
        self.free = cores
        self.max = cores
        self.cv = threading.Condition()

    def run(self, jobs, fn):
        jobs = sorted(jobs, key=lambda j: -j.np)
        out = []

        def work(j):
            need = min(j.np, self.max)
            with self.cv:
                while self.free < need:
                    self.cv.wait()
                self.free -= need
            try:
                return j, fn(j)
            finally:
                with self.cv:
                    self.free += need
                    self.cv.notify_all()

        with cf.ThreadPoolExecutor(max_workers=16) as ex:
            for f in [ex.submit(work, j) for j in jobs]:
                out.append(f.result())
        return out


class Check:
    """Base of the per-property checks.  Subclasses define id, targets, jobs(), judge()."""
    id = "X00"
    level = "exploration"
    targets = ()
    variant = "asan"
    assumptions = []
    rule = ""
    trust_crash = True     # a crash of the driver is a violation of this property

    def __init__(self):
        self.viol = []           # (key, case, message, replay text)
        self.stats = {}
        self.distinct = set()
        self.evals = 0
        self.samples = []
        self.notes = []
        self.inconclusive = 0
        self.rng = random.Random(SEED * 1000003 + int(hashlib.sha1(self.id.encode()).hexdigest()[:6], 16))

    # --- for subclasses
    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def smax(self, k, v):
        self.stats[k] = max(self.stats.get(k, v), v)

    def ok(self, sig=None, sample=None):
        """one evaluated case; sig identifies it for distinctness (None: trivial)"""
        self.evals += 1
        if sig is not None:
            self.distinct.add(hashlib.sha1(repr(sig).encode()).hexdigest()[:16])
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample)

    def v(self, key, case, msg, job=None):
        self.viol.append((key, str(case), str(msg)[:3000], job))

    def jobs(self):
        raise NotImplementedError

    def judge(self, job, res):
        raise NotImplementedError

    def finish(self):
        """checks across jobs; may add violations"""

    def nontrivial(self):
        """raise HarnessError when the run did not observe what it must observe"""
        if len(self.distinct) < 2:
            raise HarnessError("the run observed nothing (%d distinct cases)" % len(self.distinct))

    # --- machinery
    def _handle(self, job, res):
        for key, text, insrc in res.reports:
            if insrc or self.report_outside(text):
                self.v("san:" + key, next((x for x in res.last if x and x != "finished"), job.name), text, job)
                self.stat("sanitizer_reports")
        if res.hang:
            return "hang"
        bad77 = res.rc == 77 or "VH-HARNESS" in res.stderr
        if bad77:
            raise HarnessError("driver failure in %s: %s" % (job.name, res.stderr[-800:]))
        done = res.finished if job.text is not None else True
        if res.rc not in job.ok_codes or not done:
            return "crash"
        return "ok"

    def report_outside(self, text):
        return False

    def where(self, res):
        c = [x for x in res.last if x not in (None, "finished")]
        return c[0] if c else "-"

    def crash_msg(self, res):
        return "exit %s\nstderr: %s\nlast case per rank: %s" % (res.rc, res.stderr[-1500:], res.last)

    def process(self, job, res):
        st = self._handle(job, res)
        self.stat("launches")
        self.stat("ranks_run", job.np)
        if st == "ok":
            self.judge(job, res)
            return
        # judge what was logged before the end too, then settle the abnormal end by one more run
        if any(k.startswith("san:asan") for k, *_ in self.viol if True) and res.reports:
            return                                   # the report itself is the witness
        logged = [x for recs in res.ranks for x in recs if x.get("t") == "viol"]
        if logged:
            for x in logged:
                self.v(x["key"], x["case"], x["msg"], job)
            return
        if self.viol and st == "hang":
            self.v("hang:" + job.name.split("#")[0], self.where(res), "no progress within %d s; %s" % (job.timeout, res.last), job)
            return
        res2 = run_job(job)
        st2 = self._handle(job, res2)
        self.stat("reruns")
        if st2 == "ok":
            self.inconclusive += 1
            self.notes.append("%s ended abnormally once (%s) and was clean when repeated" % (job.name, st))
            self.judge(job, res2)
        elif st2 == "hang":
            self.v("hang:" + job.name.split("#")[0], self.where(res2), "no progress within %d s, twice; %s" % (job.timeout, res2.last), job)
        else:
            logged = [x for recs in res2.ranks for x in recs if x.get("t") == "viol"]
            for x in logged:
                self.v(x["key"], x["case"], x["msg"], job)
            if not logged and not any(k.startswith("san:asan") for k, *_ in self.viol):
                self.v("crash:" + job.name.split("#")[0], self.where(res2), self.crash_msg(res2), job)

    def main(self):
        try:
            self.bdir, bw = build(self.targets, self.variant)
            self.build_wall = bw
            jobs = list(self.jobs())
            pool = Pool()
            for job, res in pool.run(jobs, run_job):
                try:
                    self.process(job, res)
                except HarnessError:
                    raise
                except Exception:
                    # what the code under test reported does not even have the expected form
                    self.v("unreadable-observation:" + job.name.split("#")[0], "-", traceback.format_exc(), job)
            self.finish()
            known, new = self.classify()
            if not new:
                self.nontrivial()
        except HarnessError as e:
            sys.stderr.write("%s: error of the check, no verdict: %s\n" % (self.id, e))
            return 2
        self.evidence(len(new))
        for k, (what, n) in known.items():
            print("KNOWN-FINDING: property=%s %s" % (self.id, what))
        if new:
            self.report(new)
            return 1
        print("%s: held on %d evaluations (%d distinct), %.1f s" % (self.id, self.evals, len(self.distinct), time.time() - T0))
        return 0

    def classify(self):
        kf = json.load(open(os.path.join(V, "known_findings.json")))
        rules = [x for x in kf["findings"] if x["property"] == self.id and x["status"] == "known"]
        known, new = {}, []
        # every listed finding is printed whether or not this run met it again
        for r in rules:
            known[r["key"]] = (r["what"], 0)
        for key, case, msg, job in self.viol:
            full = key + "|" + case
            hit = None
            for r in rules:
                if re.fullmatch(r["key"], key) or re.fullmatch(r["key"], full):
                    hit = r
                    break
            if hit:
                known[hit["key"]] = (hit["what"], known[hit["key"]][1] + 1)
            else:
                new.append((key, case, msg, job))
        return known, new

    def report(self, new):
        rd = os.path.join(V, "evidence", "replay", self.id)
        shutil.rmtree(rd, ignore_errors=True)
        os.makedirs(rd, exist_ok=True)
        seen = {}
        for key, case, msg, job in new:
            seen.setdefault(key, []).append((case, msg, job))
        for i, (key, l) in enumerate(sorted(seen.items())[:20]):
            case, msg, job = l[0]
            p = os.path.join(rd, "%02d.txt" % i)
            with open(p, "w") as f:
                f.write("property %s\nkey %s\ncase %s (and %d more with this key)\nseed %d tier %s\n\n%s\n" % (self.id, key, case, len(l) - 1, SEED, TIER, msg))
                if job is not None:
                    f.write("\njob %s: %s on %d ranks, arguments %s\n" % (job.name, job.exe, job.np, job.args))
                    one = self.case_text(job, case)
                    if one:
                        f.write("\n--- case file for this case alone (cases.txt)\n" + one[:200000])
            print("  %s [%s] %s" % (key, case, msg.splitlines()[0][:300] if msg else ""))
            print("VIOLATION property=%s replay=%s" % (self.id, p))

    def case_text(self, job, case):
        c = job.cases.get(case)
        return c if isinstance(c, str) else job.text

    def evidence(self, nviol):
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
               "samples": self.samples or ["none"], "monitors_observed": dict(sorted(self.stats.items())),
               "inconclusive": self.inconclusive, "notes": self.notes[:20], "build_wall_s": round(self.build_wall, 1)}
        ev = {"property": self.id, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": list(self.assumptions), "wall_s": round(time.time() - T0, 2), "violations": nviol}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        txt = json.dumps(ev, indent=1, default=str)
        if len(txt) > 60000:
            cov["samples"] = [str(s)[:2000] for s in self.samples[:2]]
            txt = json.dumps(ev, indent=1, default=str)
        open(os.path.join(V, "evidence", self.id + ".json"), "w").write(txt)


# ----------------------------------------------------------------------- shared hash functions
M64 = (1 << 64) - 1


def mix(x):
    x = (x + 0x9E3779B97F4A7C15) & M64
    x = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & M64
    x = ((x ^ (x >> 27)) * 0x94D049BB133111EB) & M64
    return x ^ (x >> 31)


def hsh(a, b=0, c=0, d=0):
    u = lambda z: z & M64
    return mix((mix((mix((mix(u(a)) + u(b)) & M64) + u(c)) & M64) + u(d)) & M64)


def hval(h):
    return (h >> 11) / 562949953421312.0 - 8.0


def hint(h):
    return float((h & 127) - 64)
