from checks.A04 import *



class Episode(Swing):
    """the classical reference with control actions; also voltages and powers of the last step"""

    def step(self, dt):
        M = self.M
        V = self.volts([m.norton(m.a) for m in M])
        p = []
        for m in M:
            da, dw = m.slope(m.a, m.w, V[m.bus])
            p.append((m.a + da * dt, m.w + dw * dt, da, dw))
        I = [0j] * len(self.bus)
        for m, q in zip(M, p):
            I[self.at[m.bus]] += m.norton(q[0])
        idx = [i for i, x in enumerate(I) if x != 0]
        self.V = V = {b: sum(self.Z[self.at[b]][i] * I[i] for i in idx) for b in self.bus}
        self.power = {}
        for m, (a, w, da, dw) in zip(M, p):
            ea, ew = m.slope(a, w, V[m.bus])
            e = cmath.rect(m.E, a)
            s = V[m.bus] * ((e - V[m.bus]) / (1j * m.x)).conjugate()
            m.a, m.w = m.a + (da + ea) / 2 * dt, m.w + (dw + ew) / 2 * dt
            self.power[m.bus, m.q["id"]] = s


class H01(A04):
    id = "H01"
    targets = ["vh_hadrec"]
    plan = {"quick": (36, (1, 2, 3, 4, 7)), "thorough": (500, (1, 2, 3, 4, 5, 6, 7, 8))}
    rule = ("a case is one random network with classical machines, a list of observed elements and one or two episodes (reset, optional bus fault, time steps with line trips and load changes in between) run through the HADREC module on two "
            "numbers of processes; every observation of every step on every process is compared with a reference integration; distinct by network, deck, script and processes")
    assumptions = ["MVA base 100 (a constant of the classical machine model)", "actions come after the fault", "classical machines (which have no generator trip) and loads as constant admittances", "lines taken out leave the network connected; speeds stay within 25% of nominal",
                   "linear solver: MUMPS LU with iterative refinement (PETSc keeps a freed process grid of SuperLU_DIST when two of its factorizations are released)"]

    def script(self, r, g, dt, steps):
        """one episode: (fault, [ops])"""
        live = [b for b in g.order if b not in g.iso]
        fault = None
        if r.random() < 0.5:
            t = r.choice([1, 2, 5, steps // 4])
            fault = (r.choice(live), t, t + r.choice([1, 2, 5, 10]))
        out = {n for n, l in enumerate(g.lines) if not l["st"]}
        lo = fault[2] if fault else 0    # actions come after the fault
        marks = sorted(r.randint(lo, steps - 1) for _ in range(r.choice([0, 1, 1, 2, 3, 5])))
        ops, t, here = [], 0, {}
        for m in marks:
            if m > t:
                ops.append(("steps", m - t))
                t, here = m, {}     # one load change per bus and step
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                k = r.choice(["line", "line", "dp", "dq"])
                if k == "line":
                    c = list(range(len(g.lines)))
                    r.shuffle(c)
                    if r.random() < 0.4:    # parallel circuits first
                        c.sort(key=lambda n: -sum({l["f"], l["t"]} == {g.lines[n]["f"], g.lines[n]["t"]} for l in g.lines))
                    for n in c:
                        if n not in out and g.lines[n]["f"] not in g.iso and g.lines[n]["t"] not in g.iso and self.connected(g, out | {n}):
                            out.add(n)
                            ops.append(("line", n, r.random() < 0.15))
                            if r.random() < 0.1:
                                ops.append(ops[-1])    # asked twice
                            break
                else:
                    b = r.choice(live)
                    if (k, b) not in here:
                        here[k, b] = 1
                        ops.append((k, b, round(r.uniform(-1, 1) * r.choice([1, 10, 40]), 3)))
        ops.append(("steps", steps - t + r.choice([0, 0, 0, 5])))
        return fault, ops

    def run(self, g, ep, dt, steps, obs):
        fault, ops = ep
        sw = Episode(g)
        if not sw.M:
            raise ValueError
        rows, k, dirty = [], 0, True
        for op in ops:
            if op[0] == "line":
                sw.out.add(op[1])
                dirty = True
            elif op[0] in ("dp", "dq"):
                y = op[2] / 100.0 / abs(g.V[op[1]]) ** 2
                sw.fixed[op[1]] += y if op[0] == "dp" else -1j * y
                dirty = True
            else:
                part = []
                for _ in range(op[1]):
                    if k >= steps:
                        break
                    if fault and k in fault[1:]:
                        sw.fault = {fault[0]: {0: 1e9}} if k == fault[1] else {}
                        dirty = True
                    if dirty:
                        sw.reduce()
                        dirty = False
                    sw.step(dt)
                    part.append(self.observe(g, sw, obs))
                    k += 1
                rows.append(part)
        return rows

    def observe(self, g, sw, obs):
        M = {(m.bus, m.q["id"]): m for m in sw.M}
        G = [(M.get(k), sw.power.get(k)) for k in obs["gen"]]
        G = [x for x in G if x[0] or g.dummy]
        f = lambda fn: [fn(*x) if x[0] else 0.0 for x in G]
        if any(abs(m.w - 1) > 0.25 for m in sw.M):
            raise ValueError
        B = [b for b in obs["bus"] if b in g.buses or g.dummy]
        sb = lambda m: m.mva / 100.0 if g.sysbase else 1.0
        return [("speed", f(lambda m, s: m.w)), ("angle", f(lambda m, s: m.a)), ("P", f(lambda m, s: s.real * sb(m))), ("Q", f(lambda m, s: s.imag * sb(m))),
                ("voltage", [abs(sw.V[b]) if b in sw.V else 1.0 for b in B]), ("phase", [cmath.phase(sw.V[b]) if b in sw.V else 0.0 for b in B]),
                ("load", [1.0 for x in obs["load"] if x in g.realload or g.dummy]),
                ("frequency", [None if b in g.buses else 0.0 for b in obs["freq"] if b in g.buses or g.dummy])]

    def jobs(self):
        n, procs = self.plan[TIER]
        for c in range(n):
            r = random.Random(self.rng.getrandbits(60))
            g = pfgen.Grid(r, r.choice([5, 8, 12, 18, 26]), r.choice([23, 33, 33, 34, 35]), r.choice(["near", "exact"]), sbase=100.0)
            p = r.choice([1.0, 1.0, 0.8])
            for q in g.gens:
                q["mbase"] = r.choice([100.0, round(max(20.0, abs(complex(q["pg"], q["qg"])) * r.uniform(1.1, 2.0)), 1)])
                q["x"] = round(r.uniform(0.1, 0.4), 4)
                q["H"], q["D"], q["model"] = round(r.uniform(1.5, 9), 3), r.choice([0.0, round(r.uniform(0, 4), 2)]), r.random() < p
            g.dt = r.choice([0.005, 0.01, 0.004])
            g.steps = r.choice([20, 40, 80])
            g.dummy, g.sysbase = r.random() < 0.3, r.random() < 0.6
            try:
                sw = Episode(g)
                gens = sorted((m.bus, m.q["id"]) for m in sw.M)
                live = [b for b in g.order if b not in g.iso]
                g.realload = sorted({(l["bus"], l["id"]) for l in g.loads if l["bus"] not in g.iso}) if g.ver != 23 else []
                ghost = max(g.order) + 7
                obs = {"gen": r.sample(gens, min(len(gens), r.choice([0, 1, 2, 3, 9, 99]))), "bus": r.sample(live, min(len(live), r.choice([0, 1, 2, 5, 99]))), "load": r.sample(g.realload, min(len(g.realload), r.choice([0, 1, 3]))),
                       "freq": r.sample(live, min(len(live), r.choice([0, 0, 1, 4])))}
                if r.random() < 0.3:
                    for k in obs:
                        obs[k].insert(r.randint(0, len(obs[k])), ghost if k in ("bus", "freq") else (r.choice([ghost, r.choice(live)]), "zz"))
                if not any(obs.values()):
                    obs["bus"] = live[:2]
                g.obs = obs
                g.eps = [self.script(r, g, g.dt, g.steps) for _ in range(r.choice([1, 2, 2, 3]))]
                g.ref = [self.run(g, e, g.dt, g.steps, obs) for e in g.eps]
            except ValueError:
                self.stat("cases_not_determined")
                continue
            yield from self.make(r, c, g, procs)

    def make(self, r, c, g, procs):
        raw = g.file()
        dyr = [q for q in g.gens if q["model"]]
        r.shuffle(dyr)
        dyr = "".join("%d, 'GENCLS', '%-2s', %.6f, %.6f, %.6f /\n" % (q["bus"], q["id"], q["H"], q["D"], q["x"]) for q in dyr)
        deck, T = self.deck(r, g), []
        for e, (fault, ops) in enumerate(g.eps):
            T.append("case e%d" % e)
            T.append("start" + (" fault %d %.6f %.6f" % (fault[0], fault[1] * g.dt, fault[2] * g.dt) if fault else ""))
            T.append("ask")
            for op in ops:
                if op[0] == "line":
                    l = g.lines[op[1]]
                    T.append("line %d %d %s" % ((l["t"], l["f"], l["ckt"]) if op[2] else (l["f"], l["t"], l["ckt"])))
                else:
                    T.append(" ".join(map(str, op)))
            T.append("ask")
        fit = [p for p in procs if len(g.buses) >= 3 * p]
        for np in r.sample(fit, min(2, len(fit))):
            j = Job("hadrec#%d.%d" % (c, np), "vh/vh_hadrec", ["cases.txt", "out", "input.xml"], np, {"c%d" % c: g}, text="\n".join(T) + "\n", cwd_files={"g.raw": raw, "g.dyr": dyr, "input.xml": deck}, timeout=120)
            j.cid, j.g = "c%d" % c, g
            yield j

    def deck(self, r, g):
        key = {23: "networkConfiguration", 33: "networkConfiguration_v33", 34: "networkConfiguration_v34", 35: "networkConfiguration_v35"}[g.ver]
        ls = "<LinearSolver><SolutionTolerance>1.0E-15</SolutionTolerance><PETScOptions> %s </PETScOptions></LinearSolver>" % LU[1]
        O = {"gen": ["<observation><type> generator </type><busID> %d </busID><generatorID> %s </generatorID></observation>" % x for x in g.obs["gen"]],
             "bus": ["<observation><type>bus</type><busID>%d</busID></observation>" % x for x in g.obs["bus"]],
             "freq": ["<observation><type>BusFrequency</type><busID>%d</busID></observation>" % x for x in g.obs["freq"]],
             "load": ["<observation><type> Load </type><busID> %d </busID><loadID> %s </loadID></observation>" % x for x in g.obs["load"]]}
        L = []
        while any(O.values()):    # mixed, each kind in its own order
            L.append(O[r.choice([k for k in O if O[k]])].pop(0))
        return ("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<Configuration>\n<Powerflow><networkFiles><networkFile><%s> g.raw </%s></networkFile></networkFiles><maxIteration>50</maxIteration><tolerance>1.0e-10</tolerance>%s</Powerflow>\n"
                "<Dynamic_simulation><generatorParameters>g.dyr</generatorParameters><simulationTime>%.6f</simulationTime><timeStep>%g</timeStep>\n%s%s<observations>\n%s\n</observations>\n%s</Dynamic_simulation>\n</Configuration>\n"
                % (key, key, ls, g.dt * g.steps, g.dt, "<reportNonExistingElements> true </reportNonExistingElements>\n" if g.dummy else "", "" if g.sysbase else "<generatorObservationPowerSystemBase>false</generatorObservationPowerSystemBase>\n", "\n".join(L), ls))

    def case_text(self, job, case):
        return "--- script\n" + job.text + "".join("--- %s\n%s\n" % x for x in job.cwd_files.items())

    def judge(self, job, res):
        g = job.g
        w = self.one(job, g, res)
        if w:
            self.v(w[0], job.cid, "%d processes, v%d: %s; episodes %s" % (job.np, g.ver, w[1], g.eps), job)
        self.ok((job.cwd_files["g.raw"], job.cwd_files["input.xml"], job.text, job.np), {"buses": len(g.buses), "observed": {k: len(x) for k, x in g.obs.items()}, "episodes": len(g.eps), "actions": sorted({o[0] for e in g.eps for o in e[1]}), "processes": job.np})

    def one(self, job, g, res):
        ranks = [[x for x in rec if x.get("t") == "op"] for rec in res.ranks]
        per = []
        for rk, rec in enumerate(ranks):
            E = {}
            for x in rec:
                E.setdefault(x["case"], []).append(x)
            per.append(E)
        og = [x for x in g.obs["gen"] if g.dummy or (x[1] != "zz")]
        ob = [b for b in g.obs["bus"] if g.dummy or b in g.buses]
        ol = [x for x in g.obs["load"] if g.dummy or x in g.realload]
        for e in range(len(g.eps)):
            parts = [[x for x in E.get("e%d" % e, []) if x["op"] == "steps"] for E in per]
            for rk, E in enumerate(per):
                st = [x for x in E.get("e%d" % e, []) if x["op"] == "start"]
                if not st:
                    return "episode", "process %d: episode %d did not start" % (rk, e)
                st = st[0]
                have = ([(b, i.strip()) for b, i in zip(st["gb"], st["gi"])], st["vb"], [(b, i.strip()) for b, i in zip(st["lb"], st["li"])])
                if have != (og, ob, ol):
                    return "lists", "process %d, episode %d: observed elements %s, the deck asks for %s" % (rk, e, have, (og, ob, ol))
                if len(parts[rk]) != len(g.ref[e]):
                    return "episode", "process %d: episode %d incomplete" % (rk, e)
            k = 0
            for i, want in enumerate(g.ref[e]):
                for rk in range(job.np):
                    x = parts[rk][i]
                    if len(x["rows"]) != len(want):
                        return "steps", "process %d, episode %d: %d steps from step %d, %d expected (simulation of %d steps)" % (rk, e, len(x["rows"]), k, len(want), g.steps)
                    if x["rows"] != parts[0][i]["rows"]:
                        return "differ", "episode %d, from step %d: processes 0 and %d observe different values" % (e, k, rk)
                for n, (row, ref) in enumerate(zip(parts[0][i]["rows"], want)):
                    flat = [(what, j, v) for what, vals in ref for j, v in enumerate(vals)]
                    if len(row) != len(flat):
                        return "shape", "episode %d step %d: %d observations, %d expected" % (e, k + n, len(row), len(flat))
                    for (what, j, v), y in zip(flat, row):
                        if v is None:
                            if not 30 < y < 90:
                                return what, "episode %d step %d: bus frequency %d observed as %.9g" % (e, k + n, j, y)
                            continue
                        d = abs(y - v)
                        if what == "phase" and d > 3:
                            d = abs(d - 2 * math.pi)
                        tol = 2e-6 * max(1.0, abs(v))
                        if what == "phase" and ref[4][1][j] < 1e-6:
                            continue    # bus in a bolted fault
                        if not d <= tol:
                            return what, "episode %d step %d: %s %d observed as %.9g, modified Euler steps of the classical model with the actions so far give %.9g" % (e, k + n, what, j, y, v)
                        self.smax("largest difference", d)
                    self.stat("values_compared", len(flat) * job.np)
                k += len(want)
            w = self.asked(g, e, per)
            if w:
                return w
        return None

    def asked(self, g, e, per):
        """initial powers of generators and loads, and their sums by zone, as in the power flow solution"""
        Z = sorted({d["zone"] for d in g.buses.values()})
        S = {(q["bus"], q["id"].strip()): q["S"] * g.sbase for q in g.gens if q["st"] and q.get("S") is not None}
        og = [x for x in g.obs["gen"] if g.dummy or x[1] != "zz"]
        ob = [b for b in g.obs["bus"] if g.dummy or b in g.buses]
        gz, lz = {z: 0j for z in Z}, {z: 0j for z in Z}
        for (b, i), s in S.items():
            gz[g.buses[b]["zone"]] += s
        for b, d in g.buses.items():
            lz[d["zone"]] += g.load(b)
        cut = {z: sum(g.load(b) for b in g.iso if g.buses[b]["zone"] == z) for z in Z}    # what is connected to isolated buses may count or not
        gcut = {z: sum(complex(q["pg"], q["qg"]) for q in g.gens if q["bus"] in g.iso and q["st"] and g.buses[q["bus"]]["zone"] == z) for z in Z}
        for n in (0, 1):
            A = [[x for x in E.get("e%d" % e, []) if x["op"] == "ask"] for E in per]
            if any(len(a) < 2 for a in A):
                return "episode", "episode %d: powers missing" % e
            A = [a[n] for a in A]
            for rk, a in enumerate(A):
                for what, zs, p, q, want in (("loads", a["zlz"], a["zlp"], a["zlq"], lz), ("generators", a["zgz"], a["zgp"], a["zgq"], gz)):
                    if zs != Z:
                        return "zones", "process %d, episode %d: zones of the %s %s, the buses are in zones %s" % (rk, e, what, zs, Z)
                    for z, x, y in zip(zs, p, q):
                        if min(abs(complex(x, y) - want[z]), abs(complex(x, y) + cut[z] - want[z]) if what == "loads" else abs(complex(x, y) - gcut[z] - want[z])) > 1e-5 * (1 + abs(want[z])):
                            return "zones", "process %d, episode %d: %s of zone %d: %.6f %.6f, the power flow has %.6f %.6f" % (rk, e, what, z, x, y, want[z].real, want[z].imag)
            for j, k in enumerate(og):
                got = [complex(a["gp"][j], a["gq"][j]) for a in A if a["gok"][j]]
                want = S.get(k, 0j)
                if k in S and not any(abs(x - want) <= 1e-5 * (1 + abs(want)) for x in got) or not g.dummy and len(got) != 1 or any(min(abs(x - want), abs(x) if g.dummy else 1e9) > 1e-5 * (1 + abs(want)) for x in got):
                    return "power", "episode %d: generator %s has power %s on the processes, in the power flow %s" % (e, k, got, want)
            for j, b in enumerate(ob):
                got = [complex(a["lp"][j], a["lq"][j]) for a in A if a["lok"][j]]
                want = g.load(b) if b in g.buses else 0j
                if b in g.buses and not any(abs(x - want) <= 1e-5 * (1 + abs(want)) for x in got) or not g.dummy and len(got) != 1 or any(min(abs(x - want), abs(x) if g.dummy else 1e9) > 1e-5 * (1 + abs(want)) for x in got):
                    return "load", "episode %d: bus %s has load %s on the processes, in the case %s" % (e, b, got, want)
            self.stat("powers_compared", 4 * len(Z) * len(A) + len(og) + len(ob))
        return None
