import cmath, math, re
from collections import Counter
from vlib.core import *
from vlib import pfgen
from vlib.pfcheck import *

# the initial guess of a step is the previous voltage: no preonly, no early stop at PETSc's default relative tolerance, no divergence test against a collapsed voltage
LU = ["-ksp_type richardson -pc_type lu -pc_factor_mat_solver_type %s -ksp_max_it 6 -ksp_rtol 1e-11 -ksp_divtol 1e30" % s for s in ("superlu_dist", "mumps")]
W0 = 2 * math.pi * 60.0


def inverse(A):
    """inverse of a dense complex matrix, None if it is close to singular"""
    n = len(A)
    A = [row[:] + [1.0 if i == j else 0.0 for j in range(n)] for i, row in enumerate(A)]
    for i in range(n):
        p = max(range(i, n), key=lambda k: abs(A[k][i]))
        if abs(A[p][i]) < 1e-3:
            return None
        A[i], A[p] = A[p], A[i]
        d = A[i][i]
        R = A[i] = [x / d for x in A[i]]
        for k in range(n):
            m = A[k][i]
            if k != i and m != 0:
                A[k] = [x - m * y for x, y in zip(A[k], R)]
    return [row[n:] for row in A]


class Machine:
    """constant voltage behind transient reactance"""

    def __init__(self, q, S, V):
        self.q, self.bus, self.on = q, q["bus"], True
        self.mva, self.x, self.H, self.D = q["mbase"], q["x"], q["H"], q["D"]
        s = S * 100.0 / self.mva
        E = V + 1j * self.x * (s / V).conjugate()
        self.E, self.a, self.w, self.pm = abs(E), cmath.phase(E), 1.0, s.real
        self.yn = self.mva / 100.0 / (1j * self.x)

    def norton(self, a):
        return cmath.rect(self.E, a) * self.yn

    def slope(self, a, w, V):
        e = cmath.rect(self.E, a)
        pe = (e * ((e - V) / (1j * self.x)).conjugate()).real
        return (w - 1.0) * W0, ((self.pm - self.D * (w - 1.0)) / w - pe) / (2 * self.H)


class Swing:
    """classical machines on the network with loads as admittances; modified Euler"""

    def __init__(self, g):
        self.g = g
        S = g.inject(g.V)
        self.bus = [b for b in g.order if b not in g.iso]
        self.at = {b: i for i, b in enumerate(self.bus)}
        self.fixed = {b: 0j for b in self.bus}
        self.M = []
        for b in self.bus:
            mine = [q for q in g.gens if q["bus"] == b]
            on = [q for q in mine if q["st"]]
            d = g.buses[b]["type"]
            need = S[b] + g.load(b) / g.sbase
            span = sum(q["pt"] - q["pb"] for q in on)
            self.fixed[b] += (g.load(b) / g.sbase).conjugate() / abs(g.V[b]) ** 2
            for q in on:
                share = (q["pt"] - q["pb"]) / span if len(mine) > 1 else 1.0
                fix = d == 3 or d == 2
                s = need * share if d == 3 else complex(q["pg"] / g.sbase, need.imag * share if fix else q["qg"] / g.sbase)
                q["S"] = s
                if abs(s.real) < 1e-9 and s.real != 0.0:
                    raise ValueError
                if q["model"] and s.real >= 0:
                    self.M.append(self.machine(q, s, g.V[b]))
                else:
                    self.fixed[b] -= s.conjugate() / abs(g.V[b]) ** 2
        self.out = {n for n, l in enumerate(g.lines) if not l["st"]}
        self.fault = {}
        self.Z = None

    def machine(self, q, s, V):
        return Machine(q, s, V)

    def reduce(self):
        g, at, n = self.g, self.at, len(self.bus)
        Y = [[0j] * n for _ in range(n)]
        st = [l["st"] for l in g.lines]
        for k, l in enumerate(g.lines):
            l["st"] = 0 if k in self.out else 1
        for (i, j), y in g.ybus().items():
            if i in at and j in at:
                Y[at[i]][at[j]] += y
        for l, s in zip(g.lines, st):
            l["st"] = s
        for b in self.bus:
            Y[at[b]][at[b]] += self.fixed[b] - 1j * sum(self.fault.get(b, {}).values())
        for m in self.M:
            if m.on:
                Y[at[m.bus]][at[m.bus]] += m.yn
        Z = inverse(Y)
        if Z is None:
            raise ValueError
        self.Z = Z

    def volts(self, cur):
        I = [0j] * len(self.bus)
        for m, c in zip(self.M, cur):
            if m.on:
                I[self.at[m.bus]] += c
        idx = [i for i, x in enumerate(I) if x != 0]
        return {m.bus: sum(self.Z[self.at[m.bus]][i] * I[i] for i in idx) for m in self.M}

    def step(self, dt):
        M = self.M
        V = self.volts([m.norton(m.a) for m in M])
        p = []
        for m in M:
            da, dw = m.slope(m.a, m.w, V[m.bus])
            p.append((m.a + da * dt, m.w + dw * dt, da, dw))
        V = self.volts([m.norton(q[0]) for m, q in zip(M, p)])
        for m, (a, w, da, dw) in zip(M, p):
            if m.on:
                ea, ew = m.slope(a, w, V[m.bus])
                m.a, m.w = m.a + (da + ea) / 2 * dt, m.w + (dw + ew) / 2 * dt


class A04(Check):
    id = "A04"
    targets = ["dsf2.x"]
    plan = {"quick": (40, (1, 2, 3, 4, 7)), "thorough": (600, (1, 2, 3, 4, 5, 6, 7, 8))}
    rule = ("a case is one random network with classical machines, step, length and list of events (bus and branch faults, line and generator trips and reclosings, in any order), simulated by the dynamic simulation program on two numbers of "
            "processes and compared at every step; distinct by network, deck and processes")
    assumptions = ["MVA base 100 (a constant of the classical machine model)", "event times are multiples of the time step; faults at the same bus do not overlap; fault conductance 0", "lines taken out leave the network connected; speeds stay within 25% of nominal",
                   "linear solver: LU with iterative refinement, as the initial guess of each solution is the previous voltage"]

    kinds = [[], ["fault"], ["old"], ["line"], ["gen"], ["fault", "line"], ["fault", "fault"], ["line", "line"], ["gen", "gen"], ["fault", "line", "gen"], ["line", "reline"], ["gen", "regen"], ["line", "line", "reline", "gen"]]

    def events(self, r, g, dt, steps):
        """list of (step, what, ...) sorted by time; g.E"""
        E = []
        live = [b for b in g.order if b not in g.iso]
        kinds = r.choice(self.kinds)
        g.kinds = kinds
        out = {n for n, l in enumerate(g.lines) if not l["st"]}
        t = 0
        last = None
        for k in kinds:
            t = min(steps - 2, t + r.choice([0, 1, 2, 3, 7, steps // 6, steps // 4]))
            if k in ("fault", "old"):
                b = r.choice([x for x in live if x not in [q[2] for q in E if q[1] in ("on", "old") and q[4] >= t]])
                e = min(steps - 1, t + r.choice([1, 2, 5, 10]))
                x = r.choice([1e5, 1e3, 20.0, 1e9]) if k == "fault" else 99999.0
                if k == "fault":
                    E.append((t, "on", b, x, e))
                else:
                    l = r.choice([l for l in g.lines if l["f"] not in g.iso and l["t"] not in g.iso])    # one fault at a bus at a time: "old" never combines
                    E.append((t, "old", l["f"], x, e, l["t"]))
                if r.random() < 0.7:
                    t = e
            elif k == "line":
                c = list(range(len(g.lines)))
                r.shuffle(c)
                for n in c:
                    if n not in out and self.connected(g, out | {n}):
                        out.add(n)
                        E.append((t, "line", n, 0))
                        last = n
                        break
            elif k == "reline" and last is not None:
                c = [n for n in out if g.lines[n]["f"] not in g.iso and g.lines[n]["t"] not in g.iso]
                n = last if r.random() < 0.7 else r.choice(c)
                pair = {g.lines[n]["f"], g.lines[n]["t"]}
                out.discard(n)
                t = min(steps - 1, t + r.randint(1, 10))
                E.append((t, "line", n, 1))
            elif k in ("gen", "regen"):
                c = [q for q in g.gens if q.get("S") is not None and q["model"] and q["S"].real >= 0]
                done = [e[2] for e in E if e[1] == "gen" and e[3] == 0]
                if k == "gen":
                    c = [q for q in c if not any(q is d for d in done)]
                    if len(c) > 1:
                        E.append((t, "gen", r.choice(c), 0))
                elif done:
                    t = min(steps - 1, t + r.randint(1, 10))
                    E.append((t, "gen", done[-1], 1))
        return E

    def connected(self, g, out):
        live = [b for b in g.order if b not in g.iso]
        nb = {}
        for n, l in enumerate(g.lines):
            if n not in out:
                nb.setdefault(l["f"], []).append(l["t"])
                nb.setdefault(l["t"], []).append(l["f"])
        seen, todo = {live[0]}, [live[0]]
        while todo:
            for b in nb.get(todo.pop(), []):
                if b not in seen:
                    seen.add(b)
                    todo.append(b)
        return len(seen) == len(live)

    def simulate(self, sw, g, E, dt, steps):
        rows = []
        sw.reduce()
        ev = {}
        for e in E:
            ev.setdefault(e[0], []).append(e)
            if e[1] in ("on", "old"):
                ev.setdefault(e[4], []).append((e[4], "off") + e[2:4] + (e,))
        for k in range(steps):
            for e in ev.get(k, []):
                if e[1] in ("on", "old"):
                    sw.fault.setdefault(e[2], {})[id(e)] = e[3]
                elif e[1] == "off":
                    sw.fault[e[2]].pop(id(e[4]))
                elif e[1] == "line":
                    (sw.out.discard if e[3] else sw.out.add)(e[2])
                else:
                    for m in sw.M:
                        if m.q is e[2]:
                            m.on = bool(e[3])
            if k in ev:
                sw.reduce()
            sw.step(dt)
            rows.append({(m.bus, m.q["id"]): (m.a, m.w) for m in sw.M})
        return rows

    def jobs(self):
        n, procs = self.plan[TIER]
        for c in range(n):
            r = random.Random(self.rng.getrandbits(60))
            g = pfgen.Grid(r, r.choice([5, 8, 12, 18, 26]), r.choice([23, 33, 33, 34, 35]), r.choice(["near", "exact"]), sbase=100.0)
            p = r.choice([1.0, 1.0, 0.8])
            for q in g.gens:
                q["mbase"] = r.choice([100.0, round(max(20.0, abs(complex(q["pg"], q["qg"])) * r.uniform(1.1, 2.0)), 1)])
                q["x"] = round(r.uniform(0.1, 0.4), 4)
                q["H"], q["D"], q["model"] = round(r.uniform(1.5, 9), 3), r.choice([0.0, round(r.uniform(0, 4), 2)]), r.random() < p
            dt = r.choice([0.005, 0.01, 0.004])
            steps = r.choice([40, 100, 150])
            try:
                sw = Swing(g)
                if not sw.M:
                    raise ValueError
                E = self.events(r, g, dt, steps)
                E.sort(key=lambda e: e[0])
                if r.random() < 0.3:
                    r.shuffle(E)
                rows = self.simulate(sw, g, E, dt, steps)
            except ValueError:
                self.stat("cases_not_determined")
                continue
            if max(abs(w - 1) for row in rows for a, w in row.values()) > 0.25:
                self.stat("cases_not_determined")
                continue
            g.rows, g.dt, g.steps, g.E, g.freq = rows, dt, steps, E, r.choice([1, 1, 3])
            g.watch = r.sample(sorted(rows[0]), min(len(rows[0]), r.choice([1, 3, 6, 99])))
            yield from self.make(r, c, g, procs)

    def make(self, r, c, g, procs):
        raw = g.file()
        dyr = [q for q in g.gens if q["model"]]
        r.shuffle(dyr)
        dyr = "".join("%d, 'GENCLS', '%-2s', %.6f, %.6f, %.6f /\n" % (q["bus"], q["id"], q["H"], q["D"], q["x"]) for q in dyr)
        deck = self.deck(r, g)
        fit = [p for p in procs if len(g.buses) >= 3 * p]
        for np in r.sample(fit, min(2, len(fit))):
            j = Job("ds#%d.%d" % (c, np), "applications/dynamic_simulation_full_y/dsf2.x", ["input.xml"], np, {"c%d" % c: g}, text=None, cwd_files={"g.raw": raw, "g.dyr": dyr, "input.xml": deck}, timeout=120)
            j.cid, j.g = "c%d" % c, g
            yield j

    def deck(self, r, g):
        X = []
        for e in g.E:
            if e[1] == "on":
                X.append("<BusFault><begin>%.4f</begin><end> %.4f </end><bus>%d</bus><yfault> 0.0 %g </yfault></BusFault>" % (e[0] * g.dt, e[4] * g.dt, e[2], e[3]))
            elif e[1] == "old":
                X.append("<faultEvent><beginFault> %.4f</beginFault><endFault>%.4f</endFault><faultBranch>%d %d</faultBranch></faultEvent>" % (e[0] * g.dt, e[4] * g.dt, e[2], e[5]))
            elif e[1] == "line":
                l = g.lines[e[2]]
                X.append("<LineStatus><time>%.4f</time><line>%d %d</line><id>%s</id><status>%d</status></LineStatus>" % (e[0] * g.dt, l["f"], l["t"], l["ckt"], e[3]))
            else:
                X.append("<GenStatus><time>%.4f</time><bus>%d</bus><id>%s</id><status>%d</status></GenStatus>" % (e[0] * g.dt, e[2]["bus"], e[2]["id"], e[3]))
        key = {23: "networkConfiguration", 33: "networkConfiguration_v33", 34: "networkConfiguration_v34", 35: "networkConfiguration_v35"}[g.ver]
        s = r.choice([0, 1])
        ls = "<LinearSolver><SolutionTolerance>1.0E-15</SolutionTolerance><PETScOptions> %s </PETScOptions></LinearSolver>" % LU[s]
        return ("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<Configuration>\n<Powerflow><%s> g.raw </%s><maxIteration>50</maxIteration><tolerance>1.0e-10</tolerance>%s</Powerflow>\n"
                "<Dynamic_simulation><generatorParameters>g.dyr</generatorParameters><simulationTime>%.6f</simulationTime><timeStep>%g</timeStep>\n%s<Events>\n%s\n</Events>\n"
                "<generatorWatch>%s</generatorWatch>\n<generatorWatchFrequency>%d</generatorWatchFrequency><generatorWatchFileName>watch.csv</generatorWatchFileName>\n%s</Dynamic_simulation>\n</Configuration>\n"
                % (key, key, ls, g.dt * g.steps, g.dt, "<iterativeNetworkInterface>true</iterativeNetworkInterface>\n" if r.random() < 0.2 else "", "\n".join(X),
                   "".join("<generator><busID> %d </busID><generatorID> %s </generatorID></generator>" % k for k in g.watch), g.freq, ls))

    def case_text(self, job, case):
        return "".join("--- %s\n%s\n" % x for x in job.cwd_files.items())

    def judge(self, job, res):
        g = job.g
        w = self.one(job, g, res)
        if w:
            self.v(w[0], job.cid, "%d processes, v%d, events %s: %s" % (job.np, g.ver, g.kinds, w[1]), job)
        self.ok((job.cwd_files["g.raw"], job.cwd_files["input.xml"], job.np), {"buses": len(g.buses), "generators": len(g.rows[0]), "events": g.kinds, "steps": g.steps, "processes": job.np})

    def one(self, job, g, res):
        txt = res.files.get("watch.csv")
        if txt is None:
            return "watch", "no watch file written"
        txt = txt.decode(errors="replace")
        L = [l for l in txt.split("\n") if l.strip()]
        if not L:
            return "watch", "the watch file is empty"
        head = [x.replace(" ", "") for x in L[0].split(",")]
        want = {("%d_%s_%s" % (b, i, k)) for b, i in g.watch for k in ("angle", "speed")}
        if head[0] != "t" or sorted(head[1:]) != sorted(want):
            return "header", "watch file header %s, the watched generators are %s" % (L[0][:300], g.watch)
        due = [k for k in range(g.steps) if k % g.freq == 0]
        if len(L) - 1 != len(due):
            return "steps", "%d lines in the watch file, %d steps of %g s with one line every %d" % (len(L) - 1, g.steps, g.dt, g.freq)
        names = {"%d_%s" % k: k for k in g.watch}
        sel = [(names[h.rsplit("_", 1)[0]], h.endswith("speed")) for h in head[1:]]
        for k, line in zip(due, L[1:]):
            x = [float(v) for v in line.split(",")]
            if abs(x[0] - k * g.dt) > 6e-5:
                return "time", "line %d is for time %g, must be %g" % (k, x[0], k * g.dt)
            for (q, sp), v in zip(sel, x[1:]):
                ref = g.rows[k][q][1 if sp else 0]
                if not abs(v - ref) <= 1.5e-6 + 2e-7 * abs(ref):
                    return "state", "time %g s: generator %s at bus %d: %s %.6f, modified Euler steps of the classical model give %.6f (state before: %s)" % (
                        x[0], q[1], q[0], "speed" if sp else "angle", v, ref, g.rows[k - 1][q] if k else "initial")
                self.smax("largest difference", abs(v - ref))
        self.stat("states_compared", len(due) * len(sel))
        return None
