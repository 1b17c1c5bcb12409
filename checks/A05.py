import cmath, math, re
from collections import Counter
from vlib.core import *
from vlib import pfgen
from vlib.pfcheck import *

FLOW = ("PIJ", "QIJ", "PJI", "QJI")
PRINTED = ("VM", "PI", "QI") + FLOW


def solve(A, b):
    """dense Gaussian elimination; also the smallest and largest pivot"""
    n = len(b)
    A = [r[:] for r in A]
    b = b[:]
    lo, hi = float("inf"), 0.0
    for i in range(n):
        p = max(range(i, n), key=lambda k: abs(A[k][i]))
        if A[p][i] == 0.0:
            return None, 0.0, 1.0
        A[i], A[p], b[i], b[p] = A[p], A[i], b[p], b[i]
        R, d = A[i], A[i][i]
        lo, hi = min(lo, abs(d)), max(hi, abs(d))
        for k in range(i + 1, n):
            Q = A[k]
            if Q[i] != 0.0:
                m = Q[i] / d
                b[k] -= m * b[i]
                for c in range(i, n):
                    if R[c] != 0.0:
                        Q[c] -= m * R[c]
    for i in range(n - 1, -1, -1):
        R = A[i]
        b[i] = (b[i] - sum(R[c] * b[c] for c in range(i + 1, n))) / R[i]
    return b, lo, hi


def canon(t, f, to, ckt):
    """a flow is measured at one end of a circuit, whichever end the measurement names first"""
    here, there = (f, to) if t[1:] == "IJ" else (to, f)
    return t[0], here, there, ckt


class Meter:
    """one measurement: type, place, value, standard deviation"""

    def __init__(self, t, bus=None, line=None):
        self.t, self.bus, self.line, self.val, self.dev = t, bus, line, 0.0, 0.01

    def place(self):
        return self.bus if self.line is None else self.line


class Model:
    """measurement functions h(x) with exact derivatives"""

    def __init__(self, g):
        self.g = g
        self.Y = g.ybus()
        self.rows = {}
        for (i, j), y in self.Y.items():
            self.rows.setdefault(i, {})[j] = y
        self.live = [b for b in g.buses if g.buses[b]["type"] != 4]
        self.col = {}
        for b in self.live:
            if b != g.root:
                self.col["a", b] = len(self.col)
            self.col["v", b] = len(self.col)

    def row(self, m, V):
        """value and {column: derivative}"""
        g = self.g
        if m.t == "VM":
            return abs(V[m.bus]), {self.col["v", m.bus]: 1.0}
        if m.t == "VA":
            return cmath.phase(V[m.bus]), ({self.col["a", m.bus]: 1.0} if m.bus != g.root else {})
        if m.t in ("PI", "QI"):
            i, terms = m.bus, self.rows.get(m.bus, {})
        else:
            l = g.lines[m.line]
            a, b, c, d = g.stamp(l) if l["st"] else (0j, 0j, 0j, 0j)
            if not l["tap"] and l["st"]:
                a, d = a + self.lsh * complex(l["g1"], l["b1"]), d + self.lsh * complex(l["g2"], l["b2"])
            i, terms = (l["f"], {l["f"]: a, l["t"]: b}) if self.near(m, l) else (l["t"], {l["t"]: d, l["f"]: c})
        part = (lambda z: z.real) if m.t[0] == "P" else (lambda z: z.imag)
        h, D = 0.0, {}
        vi = V[i]
        for j, y in terms.items():
            s = vi * (y * V[j]).conjugate()
            h += part(s)
            for k, e in ((("a", i), 1j * s), (("v", i), s / abs(vi)), (("a", j), -1j * s), (("v", j), s / abs(V[j]))):
                if k in self.col:
                    D[self.col[k]] = D.get(self.col[k], 0.0) + part(e)
        return h, D

    lsh = 0.0     # a circuit's flow does not contain the line shunts at its ends

    def near(self, m, l):
        """the measurement is taken at the from end of the circuit's own record"""
        return (m.fr == l["f"]) == (m.t in ("PIJ", "QIJ"))

    def estimate(self, M, V, tol=1e-10, most=60):
        """Gauss-Newton from V; (V, iterations, pivot ratio) or None"""
        V = dict(V)
        for it in range(most):
            n = len(self.col)
            A = [[0.0] * n for _ in range(n)]
            b = [0.0] * n
            for m in M:
                if m.dev == 0.0:
                    continue
                h, D = self.row(m, V)
                w = 1.0 / m.dev ** 2
                if m.t == "VA":
                    h = m.val - ((m.val - h + math.pi) % (2 * math.pi) - math.pi)
                it_ = list(D.items())
                for c, d in it_:
                    b[c] += w * d * (m.val - h)
                    R = A[c]
                    for e, f in it_:
                        R[e] += w * d * f
            x, lo, hi = solve(A, b)
            if x is None or not all(math.isfinite(z) for z in x):
                return None
            for (k, bus), c in self.col.items():
                mag, ang = abs(V[bus]), cmath.phase(V[bus])
                mag, ang = (mag + x[c], ang) if k == "v" else (mag, ang + x[c])
                if mag <= 0:
                    return None
                V[bus] = cmath.rect(mag, ang)
            if max(abs(z) for z in x) < tol:
                return V, it + 1, lo / hi
        return None


class A05(Check):
    id = "A05"
    targets = ["stes.x"]
    plan = {"quick": (36, [1, 2, 3, 4, 6, 5, 8]), "thorough": (900, [1, 2, 3, 4, 5, 6, 7, 8])}
    rule = ("a case is one random network with a random set of measurements that determines its state (noise-free or noisy, redundant, repeated, on circuits out of service), estimated by the state estimation program on two numbers of "
            "processes; distinct by network, measurements and processes")
    assumptions = ["measurement types VM, VA, PI, QI, PIJ, QIJ, PJI, QJI; the others are not implemented or marked as unfinished in the source", "the measurements determine the state numerically (pivot ratio of the gain matrix above 1e-11)",
                   "no measurements at isolated buses"]

    def meters(self, r, g):
        M = []
        on = [n for n, l in enumerate(g.lines) if l["st"]]
        live = list(g.live)
        style = r.choice(["tree", "inject", "both", "full"])

        def flow(t, n):
            m = Meter(t, line=n)
            l = g.lines[n]
            m.fr, m.to = r.choice([(l["f"], l["t"]), (l["t"], l["f"])])
            return m
        if style in ("tree", "both"):
            see, todo = {g.root}, [g.root]
            while todo:
                a = todo.pop()
                for n in on:
                    l = g.lines[n]
                    if a in (l["f"], l["t"]):
                        b = l["t"] if a == l["f"] else l["f"]
                        if b not in see:
                            see.add(b)
                            todo.append(b)
                            x = r.choice(["IJ", "JI"])
                            M += [flow("P" + x, n), flow("Q" + x, n)]
        if style in ("inject", "full"):
            M += [Meter(t, b) for b in live for t in ("PI", "QI")]
        if style == "full":
            M += [Meter("VM", b) for b in live]
        M.append(Meter("VM", r.choice(live)))
        for _ in range(r.choice([0, 3, 20, 60])):
            t = r.choice(["VM", "VA", "PI", "QI"] + 2 * list(FLOW))
            if t in FLOW:
                M.append(flow(t, r.choice(on) if r.random() < 0.85 else r.randrange(len(g.lines))))
                if set((g.lines[M[-1].line]["f"], g.lines[M[-1].line]["t"])) & g.iso:
                    M.pop()
            else:
                M.append(Meter(t, r.choice(live)))
        for _ in range(r.choice([0, 0, 2, 5])):        # a second meter of the same quantity
            q = r.choice(M)
            m = Meter(q.t, q.bus, q.line)
            if q.line is not None:
                m.fr, m.to = q.fr, q.to
            M.append(m)
        r.shuffle(M)
        return M

    def xml(self, M):
        T = ['<?xml version="1.0" encoding="utf-8"?>', "<Measurements>"]
        for m in M:
            if m.line is None:
                p = "<Bus>%d</Bus>" % m.bus
            else:
                p = "<FromBus>%d</FromBus><ToBus>%d</ToBus><CKT>%s</CKT>" % (m.fr, m.to, self.g.lines[m.line]["ckt"])
            T.append("<Measurement><Type>%s</Type>%s<Value>%s</Value><Deviation>%s</Deviation></Measurement>" % (m.t, p, pfgen.f(m.val), pfgen.f(m.dev)))
        return "\n".join(T + ["</Measurements>"]) + "\n"

    def jobs(self):
        n, procs = self.plan[TIER]
        self.by = {}
        for c in range(n):
            r = random.Random(self.rng.getrandbits(60))
            g = pfgen.Grid(r, r.choice([4, 8, 14, 20, 30]) if c else 60, r.choice([23, 33, 33, 34]), r.choice(["near", "near", "flat"]), sign=1)
            self.g = g
            raw = g.file()
            mod = Model(g)
            g.M = self.meters(r, g)
            noisy = r.random() < 0.5
            for m in g.M:
                m.dev = r.choice([0.001, 0.005, 0.01, 0.01, 0.02])
                h, _ = mod.row(m, g.V)
                if noisy:
                    h += max(-2, min(2, r.gauss(0, 1))) * m.dev * (0.5 if m.t != "VA" else 0.3)
                m.val = round(h, 8) if r.random() < 0.5 else h
            if r.random() < 0.2 and len(g.M) > 3 * len(g.live):
                g.M[r.randrange(len(g.M))].dev = 0.0
            V0 = {}
            for b in g.order:
                vm, va = g.vinit[b]
                for q in g.gens:
                    if q["bus"] == b and q["st"]:
                        vm = q["vs"]
                V0[b] = cmath.rect(vm, math.radians(va))
            e = mod.estimate(g.M, V0)
            if e is None or e[2] < 1e-11 or e[1] > 25:
                self.stat("cases_not_determined")
                continue
            g.E, g.its, g.mod = e[0], e[1], mod
            if not noisy and max(abs(e[0][b] - g.V[b]) for b in g.live) > 1e-5:
                self.stat("cases_not_determined")
                continue
            g.noisy = noisy
            s = r.choice([0, 1])
            key = {23: "networkConfiguration", 33: "networkConfiguration_v33", 34: "networkConfiguration_v34"}[g.ver]
            deck = ("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<Configuration><State_estimation><%s> g.raw </%s><measurementList>meas.xml</measurementList><maxIteration>60</maxIteration><tolerance>1.0e-9</tolerance>"
                    "<LinearSolver><SolutionTolerance>1.0E-15</SolutionTolerance><PETScOptions> %s </PETScOptions></LinearSolver></State_estimation></Configuration>\n" % (key, key, SOLVERS[s]))
            mx = self.xml(g.M)
            fit = [p for p in procs if len(g.buses) >= 3 * p]
            for np in r.sample(fit, min(2, len(fit))):
                j = Job("se#%d.%d" % (c, np), "applications/state_estimation/stes.x", ["input.xml"], np, {"c%d" % c: g}, text=None, cwd_files={"g.raw": raw, "meas.xml": mx, "input.xml": deck}, timeout=120)
                j.cid, j.g = "c%d" % c, g
                yield j

    def case_text(self, job, case):
        return "".join("--- %s\n%s\n" % x for x in job.cwd_files.items())

    def judge(self, job, res):
        g = job.g
        w = self.one(job, g, res)
        if w:
            self.v(w[0], job.cid, "%d processes, v%d%s: %s" % (job.np, g.ver, ", noisy" if g.noisy else "", w[1]), job)
        self.ok((job.cwd_files["g.raw"], job.cwd_files["meas.xml"], job.np), {"buses": len(g.buses), "measurements": dict(Counter(m.t for m in g.M)), "noisy": g.noisy, "processes": job.np})

    def section(self, txt, title):
        p = txt.find(title)
        return None if p < 0 else txt[p + len(title):]

    def one(self, job, g, res):
        out = res.stdout
        its = [float(x) for x in re.findall(r"Iteration \d+ Tol:\s+(\S+)", out)]
        if not its or not its[-1] <= 1e-9:
            return "converge", "no convergence (last steps %s); Gauss-Newton converges in %d iterations" % (its[-3:], g.its)
        if len(its) > g.its + 3:
            return "steps", "%d iterations (last steps %s); Gauss-Newton needs %d" % (len(its), its[-4:], g.its)
        self.stat("iterations", len(its))
        names = ["State Estimation Outputs", "Branch Power Flow (p.u.)", "Comparison of Bus Measurements and Estimations", "Comparison of Branch Measurements and Estimations"]
        pos = [out.find(x) for x in names]
        if -1 in pos or pos != sorted(pos):
            return "tables", "a table of results is missing"
        tabs = []
        for k in range(4):
            seg = out[pos[k] + len(names[k]):pos[k + 1] if k < 3 else len(out)]
            tabs.append([l.split() for l in seg.split("\n") if l.strip() and not re.match(r"\s*(Bus Number|Bus 1|Type)", l)])
        st, fl, bm, lm = tabs
        w = once("bus", [int(x[0]) for x in st], g.mod.live)
        if w:
            return "tables", w
        V = {}
        for x in st:
            b = int(x[0])
            a, v = float(x[1]), float(x[2])
            V[b] = cmath.rect(v, math.radians(a))
            if abs(V[b] - g.E[b]) > 4e-6:
                return "state", "bus %d estimated at %.6f angle %.6f, must be %.6f angle %.6f" % (b, v, a, abs(g.E[b]), math.degrees(cmath.phase(g.E[b])))
            self.stat("bus_states_compared")
        want = Counter()
        pairs = {}
        for n, l in enumerate(g.lines):
            if l["f"] not in g.iso and l["t"] not in g.iso:
                pairs.setdefault(frozenset((l["f"], l["t"])), []).append(l)
        w = once("branch", [frozenset((int(x[0]), int(x[1]))) for x in fl], list(pairs))
        if w:
            return "tables", w
        for x in fl:
            a, b = int(x[0]), int(x[1])
            s = sum((g.flow(l, g.E)[0 if a == l["f"] else 1] for l in pairs[frozenset((a, b))] if l["st"]), 0j) / g.sbase
            if abs(s.real - float(x[2])) > 1e-5 or abs(s.imag - float(x[3])) > 1e-5:
                return "flow", "branch %d-%d: flow reported %s %s, must be %.6f %.6f" % (a, b, x[2], x[3], s.real, s.imag)
            self.stat("flows_judged")
        for rows, kind in ((bm, "bus"), (lm, "branch")):
            have = []
            for x in rows:
                k = 2 if kind == "bus" else 4
                if len(x) != k + 4:
                    return "comparison", "line %r" % " ".join(x)
                q = (x[0],) + tuple(int(y) if n < 2 else y for n, y in enumerate(x[1:k]))
                have.append((q if k == 2 else canon(*q)) + ("%.5f" % (float(x[k]) + 0.0), "%.4f" % float(x[k + 3])))
            need, est = [], {}
            for m in g.M:
                if m.t in PRINTED and (m.line is None) == (kind == "bus"):
                    q = (m.t, m.bus) if m.line is None else canon(m.t, m.fr, m.to, g.lines[m.line]["ckt"])
                    need.append(q + ("%.5f" % (float("%.5f" % m.val) + 0.0), "%.4f" % m.dev))
                    est[q] = m
            w = once("comparison of", have, need)
            if w:
                return "comparison", w
            for x, q in zip(rows, have):
                k = 2 if kind == "bus" else 4
                h, _ = g.mod.row(est[q[:-2]], g.E)
                if abs(float(x[k + 1]) - h) > 2e-5:
                    return "estimate", "%s estimated as %s, the estimated state gives %.6f" % (" ".join(x[:k]), x[k + 1], h)
                if abs(float(x[k + 2]) - (float(x[k + 1]) - float(x[k]))) > 2.1e-5:
                    return "estimate", "%s: difference %s of estimate %s and measurement %s" % (" ".join(x[:k]), x[k + 2], x[k + 1], x[k])
                self.stat("measurements_compared")
        return None


