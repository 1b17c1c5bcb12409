# The shipped applications on variations of the shipped decks, under the sanitizers, on several numbers of processes.
import glob, math, os, random, re
from vlib.core import *

SRC = os.environ.get("VERIF_REPO", "/repo") + "/src/applications/data_sets"
DS = "applications/dynamic_simulation_full_y/"
K, C = ("kundur-twoarea_v33.raw", "kundur-twoarea_%s.dyr"), ("case9.raw", "case9_%s.dyr")
# deck, time step, units that do not rest in equilibrium without an event (None: all), case and device file in place of those of the deck
DECKS = [("input_145.xml", 0.01, ""), ("input_240bus.xml", 0.005, ""), ("input_twoarea.xml", 0.005, ""), ("input_9b3g.xml", 0.01, ""),
         ("input_twoarea_renewable_mech.xml", 0.005, ""), ("input_300_cmpld.xml", 0.004, None),
         ("input_3g9b_gensal_esst1a_wsieg1_1acmotor_withob.xml", 0.004, ""), ("input_tamu500_step005.xml", 0.005, "")]
DECKS += [("input_twoarea.xml", 0.005, "", K[0], K[1] % d) for d in ("esst1a", "esst4b", "wsieg1")]
DECKS += [("input_9b3g.xml", 0.005, "", C[0], C[1] % d) for d in ("GAST", "HYGOV", "SEXS", "REGCA1_REECA1_REPCA1", "GENROU_ESST1A_WSIEG1", "GENROU_EXDC1_WSIEG1", "GENSAL_ESST1A_WSIEG1")]
NUM = re.compile(r"[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$")


def close(a, b, tol):
    if a == b:
        return True
    try:
        x, y = float(a), float(b)
    except ValueError:
        return False
    return abs(x - y) <= tol * max(1.0, abs(x))


class X01(Check):
    id = "X01"
    targets = ["pf.x", "ca.x", "stes.x", "dsf.x", "dsf2.x", "wind.x", "dsim.x"]
    plan = {"quick": dict(ds=2, pf=2, se=2, ca=2, wind=1, dae=2), "thorough": dict(ds=15, pf=12, se=12, ca=10, wind=6, dae=12)}
    rule = ("a case is one shipped application on one shipped deck with random fault, watch list, load scaling or options, run on one and on several processes; "
            "distinct by application, deck, changes and processes")
    assumptions = ["comparison of trajectories ends when a machine is more than 3% away from nominal speed", "the record of the 240 bus device file that lacks its end is completed", "state estimation and power flow are compared to 2e-5"]

    # ---- input
    def index(self):
        self.path = {os.path.basename(f): f for f in glob.glob(SRC + "/**/*", recursive=True) if os.path.isfile(f)}
        for d in ("hadrec", "dynamic_simulation_dae", "development/wind_dsa"):
            for f in glob.glob(os.environ.get("VERIF_REPO", "/repo") + "/src/applications/%s/**/*" % d, recursive=True):
                self.path.setdefault(os.path.basename(f), f)

    def text(self, name, near=None):
        p = self.path[name]
        if near:
            for d in near:
                q = [f for f in glob.glob(SRC + "/**/" + name, recursive=True) if "/%s/" % d in f]
                p = q[0] if q else p
        t = open(p, "rb").read().decode("latin-1")
        if name.startswith("240bus") and name.endswith(".dyr"):
            a = "1.2000      0.90000      0.50000      -1.3000      0.20000E-01\r\n   3433 'REECA1'"
            t = t.replace(a, a.replace("\r\n", "\r\n 0.0 100.0 -100.0 0.7 /\r\n"))
        return t

    def units(self, t):
        seen = []
        for b, m, i in re.findall(r"^\s*(\d+)\s*,?\s*'(GEN\w+|REGC\w+)\s*'\s*,?\s*'?(\w+)", t, re.M):
            if (b, i) not in seen:
                seen.append((b, i))
        return seen

    def branches(self, t):
        """(from, to) of single branches in the case file"""
        sec = [l for l in t.splitlines()[3:] if not l.startswith("@")]
        if "BEGIN BUS DATA" in t:
            sec = sec[next(i for i, l in enumerate(sec) if "BEGIN BUS DATA" in l) + 1:]
        k = next(i for i, l in enumerate(sec) if re.match(r"\s*0\s*(/|$)", l))
        out = []
        # the branch section is the one whose records name two known buses
        bus = {l.split(",")[0].strip() for l in sec[:k]}
        blocks, cur = [], []
        for l in sec[k + 1:]:
            if re.match(r"\s*0\s*(/|$)", l):
                blocks.append(cur)
                cur = []
            else:
                cur.append(l)
        for b in blocks:
            rows = [[w.strip().strip("'").strip() for w in l.split(",")] for l in b]
            if rows and not any("'" in l.split(",")[1] for l in b if "," in l) and all(len(w) > 9 and w[0] in bus and w[1].lstrip("-") in bus for w in rows):
                ends = [(w[0], w[1].lstrip("-")) for w in rows]
                return sorted({e for e in ends if ends.count(e) == 1 and e[::-1] not in ends})
        return out

    def cut(self, t, tag, val):
        return re.sub(r"<%s>[^<]*</%s>" % (tag, tag), "<%s> %s </%s>" % (tag, val, tag), t)

    def ds(self, c, r):
        name, dt, flat = DECKS[c % len(DECKS)][:3]
        x = self.text(name)
        swap = DECKS[c % len(DECKS)][3:]
        raw = re.findall(r"<networkConfiguration\w*>\s*(\S+?)\s*<", re.sub(r"<!--.*?-->", "", x, flags=re.S))[0]
        dyr = re.findall(r"<generatorParameters>\s*(\S+?)\s*<", re.sub(r"<!--.*?-->", "", x, flags=re.S))[-1]
        if swap:
            x = x.replace(raw, swap[0]).replace(dyr, swap[1])
            raw, dyr = swap
            name = dyr
        dt = dt * r.choice([1, 1, 0.5])
        T = r.choice([0.3, 0.5, 0.8])
        x = self.cut(x, "simulationTime", "%g" % T)
        i = x.index("<Dynamic_simulation>")
        x = x[:i] + re.sub(r"(<timeStep>)[^<]*", r"\g<1>%g" % dt, x[i:])
        u = self.units(self.text(dyr))
        w = sorted(r.sample(u, r.randint(1, len(u)))) if r.random() < 0.7 else list(u)
        x = re.sub(r"<generatorWatch>.*?</generatorWatch>", "<generatorWatch>" + "".join("<generator><busID> %s </busID><generatorID> %s </generatorID></generator>" % q for q in w) + "</generatorWatch>", x, flags=re.S)
        x = self.cut(x, "generatorWatchFileName", "w.csv")
        x = self.cut(x, "generatorWatchFrequency", "1")
        ev, t0 = None, T
        if r.random() < 0.7:
            e = r.choice(self.branches(self.text(raw)))
            t0 = round(r.randint(10, 20) * dt, 6)
            t1 = round(t0 + r.randint(4, 12) * dt, 6)
            ev = "<Events><faultEvent><beginFault> %g </beginFault><endFault> %g </endFault><faultBranch> %s %s </faultBranch><timeStep> %g </timeStep></faultEvent></Events>" % (t0, t1, e[0], e[1], dt)
        x = re.sub(r"<Events>.*?</Events>", ev or "", x, flags=re.S)
        files = {"input.xml": x, raw: self.text(raw), dyr: self.text(dyr)}
        m = dict(kind="ds", deck=name, watch=w, t0=t0, flat=flat, rows=int(round(T / dt)), sig=(name, T, dt, ev, len(w)), got={}, ev=ev)
        nps = [n for n in (1, 2, 3, 4) if n == 1 or n * 3 <= len(self.text(raw).splitlines()) and not (n > 2 and ("9b" in raw.lower() or "case9" in raw or "kundur" in raw))]
        r.shuffle(nps)
        runs = [("dsf2.x", n) for n in nps[:2]] + [("dsf.x", r.choice(nps))]
        for exe, n in runs:
            yield m, DS + exe, n, files

    def pf(self, c, r):
        name = ["input_14.xml", "input_118.xml", "input_polish.xml"][c % 3 if TIER != "quick" else c % 2]
        x = self.text(name, ("powerflow",))
        raw = re.findall(r"<networkConfiguration\w*>\s*(\S+?)\s*<", x)[0]
        if r.random() < 0.5:
            x = re.sub(r"<maxIteration>[^<]*", "<maxIteration>%d" % r.choice([15, 30]), x)
        files = {"input.xml": x, raw: self.text(raw, ("raw",))}
        m = dict(kind="table", deck="pf " + name, sig=("pf", name), got={})
        for n in r.sample([1, 2, 3, 4], 2):
            yield m, "applications/powerflow/pf.x", n, files

    def se(self, c, r):
        name = ["input_14.xml", "input_118.xml"][c % 2]
        x = self.text(name, ("se", "state_estimation"))
        x = re.sub(r"(<maxIteration>)[^<]*", r"\g<1>30", x)
        raw = re.findall(r"<networkConfiguration\w*>\s*(\S+?)\s*<", x)[0]
        mf = re.findall(r"<measurementList>\s*(\S+?)\s*<", x)[0]
        meas = re.findall(r"<Measurement>.*?</Measurement>", self.text(mf), re.S)
        r.shuffle(meas)
        files = {"input.xml": x, raw: self.text(raw, ("raw",)), mf: "<Measurements>\n%s\n</Measurements>\n" % "\n".join(meas)}
        m = dict(kind="table", deck="stes " + name, sig=("stes", name, c), got={})
        for n in r.sample([1, 2, 3, 4], 2):
            yield m, "applications/state_estimation/stes.x", n, files

    def ca(self, c, r):
        name = ["input_14.xml", "input_118.xml"][c % 2]
        x = self.text(name, ("ca",))
        raw = re.findall(r"<networkConfiguration\w*>\s*(\S+?)\s*<", x)[0]
        cf = re.findall(r"<contingencyList>\s*(\S+?)\s*<", x)[0]
        cont = re.findall(r"<Contingency>.*?</Contingency>", self.text(cf), re.S)
        cont = r.sample(cont, min(len(cont), 6))
        body = self.text(cf)
        body = body[:body.index("<Contingency>")] + "\n".join(cont) + body[body.rindex("</Contingency>") + 14:]
        files = {"input.xml": x, raw: self.text(raw, ("raw",)), cf: body}
        m = dict(kind="files", deck="ca " + name, sig=("ca", name, c), got={}, skip=r"perf_sum|line_flt")
        for n in r.sample([1, 2, 3, 4], 2):
            yield m, "applications/contingency_analysis/ca.x", n, files

    def wind(self, c, r):
        d = os.environ.get("VERIF_REPO", "/repo")
        src = [f for f in glob.glob(d + "/src/applications/**/wind*/input.xml", recursive=True) + glob.glob(SRC + "/**/wind*/**/input*.xml", recursive=True) if "3g9b" in open(f, errors="replace").read().lower()]
        if not src:
            return
        x = open(src[0]).read()
        x = self.cut(x, "simulationTime", "0.2")
        files = {"input.xml": x}
        for f in set(re.findall(r">\s*([\w.-]+\.(?:raw|dyr|txt|xml|csv))\s*<", x)):
            if f in self.path:
                files[f] = self.text(f)
        m = dict(kind="files", deck="wind", sig=("wind", c), got={}, skip=r"branch.csv|_(ANG|SPD|GENP|GENQ)$")
        for n in r.sample([1, 2, 3], 2):
            yield m, "applications/development/wind_dsa/wind.x", n, files

    def dae(self, c, r):
        dyr = r.choice(["case9_GENROU.dyr", "case9_GENROU_EXDC1.dyr", "case9_GENROU_ESST1A.dyr"])
        x = """<?xml version="1.0" encoding="utf-8"?>
<Configuration><Dynamic_simulation>
<networkConfiguration> case9.raw </networkConfiguration><generatorParameters> %s </generatorParameters>
<simulationTime>%g</simulationTime><timeStep>0.01</timeStep>
<faultbus>%d</faultbus><faultontime>0.2</faultontime><faultofftime>0.25</faultofftime><Gfault>0.0</Gfault><Bfault>%d</Bfault>
<DAESolver><PETScPrefix>dsim_</PETScPrefix></DAESolver></Dynamic_simulation></Configuration>""" % (dyr, r.choice([0.1, 0.4, 0.6]), r.randint(4, 9), r.choice([1, 5, 10]))
        m = dict(kind="run", deck="dsim " + dyr, sig=("dsim", x), got={})
        yield m, "applications/dynamic_simulation_dae/dsim.x", 1, {"input.xml": x, "case9.raw": self.text("case9.raw"), dyr: self.text(dyr)}

    def jobs(self):
        self.index()
        self.all = []
        for kind, n in self.plan[TIER].items():
            for c in range(n * len(DECKS) if kind == "ds" else n):
                r = random.Random(self.rng.getrandbits(60))
                for k, (m, exe, np, files) in enumerate(getattr(self, kind)(c, r)):
                    if k == 0:
                        self.all.append(m)
                    yield Job("%s%d.%d#%d" % (kind, c, k, np), exe, ["input.xml"], np, cases={k: m["deck"]}, text=None, meta=(m, exe, np),
                              cwd_files={a: b.encode("latin-1") for a, b in files.items()}, timeout=150)

    # ---- oracle
    def table(self, t):
        out = []
        for l in t.splitlines():
            w = l.replace("*", " * ").split()
            if len(w) >= 3 and sum(1 for q in w if NUM.match(q) and "." in q) >= 2 and "KSP" not in l and "SNES" not in l and "ime" not in l and "norm" not in l.lower() and ":" not in l:
                out.append(w)
        return out

    def judge(self, job, res):
        m, exe, np = job.meta
        exe = os.path.basename(exe)
        self.stat("runs " + exe)
        key = (exe, np)
        if m["kind"] == "ds":
            t = res.files.get("w.csv", b"").decode("latin-1").splitlines()
            what = "%s on %s with %d processes, event %s" % (exe, m["deck"], np, m["ev"])
            if not t:
                self.v("watch", m["deck"], "%s: no watch file" % what, job)
                return
            h = [q.strip() for q in t[0].split(",")]
            rows = [[q.strip() for q in l.split(",")] for l in t[1:]]
            names = []
            for q in h[1:]:
                u = tuple(q.strip().split("_")[:2])
                if not names or names[-1] != u:
                    names.append(u)
            names = [(a, b.strip()) for a, b in names]
            if sorted(names) != sorted(m["watch"]):
                self.v("watch", m["deck"], "%s: the watch file names the units %s, watched were %s" % (what, sorted(set(names) ^ set(m["watch"]))[:5], len(m["watch"])), job)
                return
            if any(len(l) != len(h) for l in rows) or abs(len(rows) - m["rows"]) > 1:
                self.v("watch", m["deck"], "%s: rows of %s values under %d names, %d rows of %d" % (what, sorted({len(l) for l in rows}), len(h), len(rows), m["rows"]), job)
                return
            bad = [q for l in rows for q in l if not NUM.match(q)]
            if bad:
                self.v("watch", m["deck"], "%s: values %s" % (what, bad[:3]), job)
                return
            rows = [[float(q) for q in l] for l in rows]
            self.stat("trajectory_points", len(rows) * (len(h) - 1))
            order = sorted(range(1, len(h)), key=lambda i: h[i])
            h = h[:1] + [h[i] for i in order]
            rows = [l[:1] + [l[i] for i in order] for l in rows]
            m["head"] = h
            if m["flat"] is not None:
                for l in rows:
                    if l[0] >= m["t0"] - 1e-6:
                        break
                    k = max(range(1, len(h)), key=lambda i: abs(l[i] - rows[0][i]) / max(1.0, abs(rows[0][i])))
                    if abs(l[k] - rows[0][k]) > 2e-3 * max(1.0, abs(rows[0][k])):
                        self.v("equilibrium", m["deck"], "%s: %s moves from %g to %g by time %g before any event" % (what, h[k], rows[0][k], l[k], l[0]), job)
                        break
                    self.stat("steps_in_equilibrium")
            m["got"][key] = (rows, job)
        elif m["kind"] == "table":
            t = self.table(res.stdout if isinstance(res.stdout, str) else res.stdout.decode("latin-1"))
            if len(t) < 10:
                self.v("table", m["deck"], "%s with %d processes prints %d rows" % (m["deck"], np, len(t)), job)
                return
            m["got"][key] = (t, job)
        elif m["kind"] == "files":
            f = {a: b.decode("latin-1").split("\n") for a, b in res.files.items() if a not in job.cwd_files and not re.search(m["skip"], a) and not a.startswith("san.") and a.count(".") == 1 and a.split(".")[-1] in ("out", "txt", "csv")}
            m["got"][key] = (f, job)
        else:
            m["got"][key] = (None, job)

    def compare(self, m, ka, a, kb, b, job):
        what = "%s: %s on %d and %s on %d processes" % ((m["deck"],) + ka + kb)
        if m["kind"] == "ds":
            for x, y in zip(a, b):
                if any("speed" in n and abs(v - 1) > 0.03 for n, v in zip(m["head"], x)):
                    self.stat("trajectories_cut")
                    return
                k = max(range(len(x)), key=lambda i: abs(x[i] - y[i]) / max(1.0, abs(x[i])))
                d = abs(x[k] - y[k]) / max(1.0, abs(x[k]))
                self.smax("largest_difference_of_trajectories", d)
                if d > (2e-4 if ka[0] == kb[0] else 1e-3 if x[0] < m["t0"] - 1e-6 else 0.1):
                    self.v("differ", m["deck"], "%s: %s at time %g is %g and %g (event %s)" % (what, m["head"][k], x[0], x[k], y[k], m["ev"]), job)
                    return
        elif m["kind"] == "table":
            if len(a) != len(b):
                self.v("differ", m["deck"], "%s: tables of %d and %d rows" % (what, len(a), len(b)), job)
                return
            for x, y in zip(a, b):
                self.stat("table_rows")
                if len(x) != len(y) or not all(close(p, q, 2e-5) for p, q in zip(x, y)):
                    self.v("differ", m["deck"], "%s: rows %s and %s" % (what, " ".join(x), " ".join(y)), job)
                    return
        elif m["kind"] == "files":
            if sorted(a) != sorted(b):
                self.v("differ", m["deck"], "%s: files %s" % (what, sorted(set(a) ^ set(b))[:6]), job)
                return
            for f in sorted(a):
                if len(a[f]) != len(b[f]):
                    self.v("differ", m["deck"], "%s: %s has %d and %d lines" % (what, f, len(a[f]), len(b[f])), job)
                    return
                for x, y in zip(a[f], b[f]):
                    if x.startswith("Running task"):
                        continue
                    x, y = x.replace(",", " ").split(), y.replace(",", " ").split()
                    self.stat("file_lines")
                    if "_mm" in f:  # the contingency of an extreme depends on rounding where values tie
                        x, y = x[:-2], y[:-2]
                    if len(x) != len(y) or not all(close(p, q, 1e-4) for p, q in zip(x, y)):
                        self.v("differ", m["deck"], "%s: lines of %s %s and %s" % (what, f, " ".join(x)[:200], " ".join(y)[:200]), job)
                        return

    def finish(self):
        for m in self.all:
            g = sorted(m["got"].items())
            for (ka, (a, _)), (kb, (b, job)) in zip(g, g[1:]):
                self.compare(m, ka, a, kb, b, job)
                self.stat("comparisons " + m["kind"])
            for k in m["got"]:
                self.ok(m["sig"] + k, {"deck": m["deck"], "executable": k[0], "processes": k[1], "event": m.get("ev")})
