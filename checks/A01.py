import cmath, math
from vlib.core import *
from vlib import pfgen
from vlib.pfcheck import *


class A01(Check):
    id = "A01"
    targets = ["vh_pf"]
    plan = {"quick": [(1, 150, 0), (2, 45, 0), (3, 30, 0), (4, 30, 0), (4, 15, 2), (6, 15, 0), (6, 15, 3)], "thorough": [(1, 3000, 0), (2, 900, 0), (3, 600, 0), (4, 600, 0), (4, 300, 2), (6, 300, 3), (6, 300, 0), (8, 200, 0), (8, 200, 4)]}
    rule = ("a case is one random network of 2 to 40 buses (parallel and reversed circuits, transformers with taps and phase shifts, line shunts, fixed and switched shunts, several loads and generators per "
            "bus, records out of service, isolated and transit buses) written as a RAW file of version 23, 33, 34 or 35 or a MATPOWER case and solved by the power flow module with the hand-coded solver, the nonlinear solver or "
            "the Newton-Raphson solver; distinct by file, solver, processes and group size")
    assumptions = ["loads are constant power", "all generators of a bus have the same voltage set point", "started within a few per cent of a known solution where convergence is asserted",
                   "networks have at least three buses per process"]

    def jobs(self):
        for np, n, gs in self.plan[TIER]:
            left = n
            j = 0
            while left > 0:
                m = min(left, 15)
                left -= m
                j += 1
                files, lines, cases = {}, [], {}
                for c in range(m):
                    r = random.Random(self.rng.getrandbits(60))
                    ver = r.choice([23, 33, 33, 34, 35, 0])
                    per = gs if gs else np
                    nb = r.choice([2, 3, 5, 8, 14, 20, 40]) if per == 1 else 3 * per + r.randint(2, 25)
                    g = pfgen.Grid(r, nb, ver, r.choice(["near", "near", "near", "exact", "flat"]), sign=r.choice([1, 1, 1, -1]) if ver else 1, mat=not ver)
                    cid = "c%d" % c
                    g.path = "d/%s.raw" % cid
                    g.newton = r.random() < 0.5
                    g.solver = r.choice([0, 0, 1]) if per > 1 else 0
                    g.tol = r.choice([1e-6, 1e-6, 1e-8, 1e-10])
                    how = r.choice(["solve", "solve", "solve", "nl"])
                    files["d/%s.raw" % cid] = g.file()
                    files["d/%s.xml" % cid] = deck(g, r, g.tol)
                    ops = [how, "dump:a"]
                    x = r.random()
                    if x < 0.3:
                        ops += ["reset", how, "dump:b"]
                    elif x < 0.45:
                        ops += ["reload", how, "dump:b"]
                    g.how = how
                    cases[cid] = g
                    lines.append("case %s d/%s.xml %d %s" % (cid, cid, gs, " ".join(ops)))
                files["cases2.txt"] = "\n".join(lines) + "\n"
                yield Job("pf#%d.%d.%d" % (np, gs, j), "vh/vh_pf", ["@D/cases2.txt", "@D/out"], np, cases, text="", cwd_files=files, timeout=240)

    def case_text(self, job, case):
        g = job.cases.get(case)
        return job.cwd_files["d/%s.xml" % case] + "\n" + job.cwd_files["d/%s.raw" % case] if g else ""

    def judge(self, job, res):
        by = {}
        for rk, recs in enumerate(res.ranks):
            for x in recs:
                if "case" in x:
                    by.setdefault(x["case"], []).append((rk, x))
        for cid, g in job.cases.items():
            w = self.one(job, cid, g, by.get(cid, []))
            if w:
                self.v(w[0], cid, "%s, %s, start %s: %s" % ("MATPOWER" if g.mat else "v%d" % g.ver, g.how, g.start, w[1]), job)
            self.ok((g.path, job.cwd_files["d/%s.raw" % cid], g.how, job.np), {"buses": len(g.buses), "lines": len(g.lines), "generators": len(g.gens), "version": "MATPOWER" if g.mat else g.ver, "solver": g.how, "start": g.start,
                                                                             "processes": job.np})

    def one(self, job, cid, g, rr):
        for rk, x in rr:
            if x["t"] == "threw":
                return "threw", "power flow threw: %s" % x["what"]
        flags = {}
        for rk, x in rr:
            if x["t"] == "op" and x["op"] in ("solve", "nl"):
                flags.setdefault(x["grp"], []).append(x["ret"])
        flat = {f for l in flags.values() for f in l}
        if len(flat) != 1:
            return "flag", "processes, groups or repetitions disagree whether the power flow converged: %s" % flags
        conv = flat == {True}
        self.stat("solved" if conv else "not_solved")
        if g.start != "flat" and not conv:
            return "converge", "no convergence from a start within a few per cent of a solution"
        if not conv:
            return None
        tol = max(1e-5 if g.how == "nl" else 0, 1.05 * g.tol) + 2e-11
        st = {}
        for rk, x in rr:
            if x["t"] != "res":
                continue
            w = judge(g, x, tol, stats=st)
            if w:
                return "result", "%s (results %s)" % (w, x["label"])
            v, gen, fl = parse(x)
            self.stat("bus_results", len(v))
            self.stat("flow_results", len(fl))
            self.stat("generator_results", len(gen))
            if g.start != "flat":
                for b, a, m, _, _ in v:
                    pa, pm = math.degrees(cmath.phase(g.V[b])), abs(g.V[b])
                    if g.buses[b]["type"] != 4 and (angdiff(a, pa) > 0.02 + 1e4 * tol or abs(m - pm) > 1e-3 + 100 * tol):
                        return "planted", "bus %d: voltage %.9g angle %.9g reported, the solution planted is %.9g angle %.9g" % (b, m, a, pm, pa)
            pr = {b: (m, a) for b, a, m, _, _ in v}
            pg = {(b, i): (p, q) for b, i, p, q in gen}
            seen = set()
            for rk2, y in rr:
                if y["t"] != "bus" or y["label"] != x["label"] or y["grp"] != x["grp"]:
                    continue
                b = y["n"]
                if g.buses[b]["type"] == 4:
                    continue
                m, a = pr[b]
                if y["act"]:
                    if b in seen:
                        return "owner", "bus %d owned twice" % b
                    seen.add(b)
                    if not y["has"] or abs(y["vm"] - m) > 1e-9 or angdiff(y["va"], a) > 1e-8:
                        return "saved", "bus %d: printed voltage %.10g angle %.10g, saved %s %s" % (b, m, a, y["vm"], y["va"])
                    for i, p, q in zip(y["ids"], y["p"], y["q"]):
                        P, Q = pg[b, i.strip()]
                        if abs(p * g.sbase - P) > 1e-6 * (1 + abs(P)) or abs(q * g.sbase - Q) > 1e-6 * (1 + abs(Q)):
                            return "saved", "bus %d generator %s: printed P %.9g Q %.9g, saved P %.9g Q %.9g" % (b, i, P, Q, p * g.sbase, q * g.sbase)
                if abs(y["gv"] - m) > 1e-9 or angdiff(math.degrees(y["ga"]), a) > 1e-8:
                    return "copy", "process %d: its copy of bus %d has voltage %.10g angle %.10g, printed is %.10g %.10g" % (rk2, b, y["gv"], math.degrees(y["ga"]), m, a)
                self.stat("bus_copies_compared")
        self.smax("worst_mismatch_1e12", int(st.get("worst", 0) * 1e12))
        return None
