import math
from checks.L03 import *

ITER = ["-ksp_type~gmres~-ksp_rtol~1e-13~-ksp_atol~1e-50~-pc_type~jacobi", "-ksp_type~gmres~-ksp_rtol~1e-13~-ksp_atol~1e-50~-pc_type~bjacobi", "-ksp_type~preonly~-pc_type~lu~-pc_factor_mat_solver_type~mumps",
        "-ksp_type~preonly~-pc_type~lu~-pc_factor_mat_solver_type~superlu_dist"]


class L04(L03):
    id = "L04"
    mode = "nls"
    plan = {"quick": [(1, 40), (2, 60), (3, 60), (4, 60), (5, 30), (8, 30)],
            "thorough": [(1, 300), (2, 500), (3, 500), (4, 500), (5, 300), (6, 300), (7, 200), (8, 300)]}
    rule = ("a case is a system of 1..16 nonlinear equations (quadratic, cubic, products of unknowns, sines) with known solutions distributed at random, one of the two solvers with random tolerances, "
            "iteration limits and inner linear solver, and a sequence of solves from near and far starts; the solution is put into the equations, the iterates of Newton-Raphson are recomputed "
            "here; distinct by (seed, processes)")
    assumptions = ["the Jacobian is diagonally dominant near the solutions and at the starts called near"]

    def common(self, r, np):
        par = {"newton": r.randrange(2), "ownj": r.randrange(2), "cpct": r.choice([0, 10, 30, 60]), "near": r.choice([0, 5, 20, 40]), "far": r.choice([2, 6, 30]), "dens": r.choice([0, 10, 30, 70])}
        stol = r.choice([1e-4, 1e-6, 1e-8, 1e-10])
        ftol = r.choice([1e-5, 1e-8, 1e-11])
        maxit = r.choice([1, 2, 3, 30, 60, 60, 60])
        cfg = []
        if r.random() < 0.85:
            cfg += ["SolutionTolerance=%g" % stol, "FunctionTolerance=%g" % ftol, "MaxIterations=%d" % maxit]
        else:
            stol, ftol, maxit = 1e-5, 1e-10, 50
        par["stol"], par["ftol"], par["maxit"] = stol, ftol, maxit
        opt = r.choice(ITER)
        if par["newton"]:
            par["tag"] = "NewtonRaphsonSolver"
            inner = ""
            if "gmres" in opt:
                inner = "<SolutionTolerance>1.0e-14</SolutionTolerance><RelativeTolerance>1.0e-13</RelativeTolerance><MaxIterations>500</MaxIterations>"
            cfg.append("LinearSolver=%s<InitialGuessZero>true</InitialGuessZero><PETScOptions>%s</PETScOptions>" % (inner, opt))
        else:
            par["tag"] = "NonlinearSolver"
            if r.random() < 0.3:
                opt += "~" + r.choice(["-snes_linesearch_type~basic", "-snes_linesearch_type~l2", "-snes_linesearch_type~bt"])
            cfg.append("PETScOptions=" + opt)
        if r.random() < 0.25:
            cfg.append("PETScPrefix=" + r.choice(["px", "qq_"]))
        par["cfg"] = ";".join(cfg)
        p = "".join(r.choice("nnnf") for _ in range(r.randint(1, 5)))
        if par["newton"] and r.random() < 0.4:
            p += r.choice("tu") + "n"
        par["prog"] = p
        return par

    def problem(self, sim, g):
        n, dens = sim.n[0], int(g.par["dens"])
        A = self.matrix(sim, 11, dens)
        kind = [sim.h(22, i) % 4 for i in range(n)]
        mate = [sim.h(23, i) % n for i in range(n)]
        c = [sim.val(21, i) * (int(g.par["cpct"]) * 0.01) for i in range(n)]
        sin = (lambda z: cmath.sin(z) if abs(z) < 300 else 1e100)
        cos = (lambda z: cmath.cos(z) if abs(z) < 300 else 1e100)

        def phi(i, x):
            k = kind[i]
            return x[i] * x[i] if k == 0 else x[i] * x[mate[i]] if k == 1 else x[i] * x[i] * x[i] if k == 2 else sin(x[i])

        def Fn(x, b):
            return [sum(a * z for a, z in zip(A[i], x)) + c[i] * phi(i, x) - b[i] for i in range(n)]

        def Jn(x):
            J = [list(r) for r in A]
            for i in range(n):
                k = kind[i]
                if k == 0:
                    J[i][i] += c[i] * x[i] * 2
                elif k == 1:
                    J[i][i] += c[i] * x[mate[i]]
                    J[i][mate[i]] += c[i] * x[i]
                elif k == 2:
                    J[i][i] += c[i] * x[i] * x[i] * 3
                else:
                    J[i][i] += c[i] * cos(x[i])
            return J
        return A, Fn, Jn

    def judge(self, job, res):
        nrm = lambda v: math.sqrt(sum(abs(z) ** 2 for z in v))
        for case, color, g, seqs in self.groups(job, res):
            sim = Sim(g.seed, g.size, g.lay, g.real)
            n = sim.n[0]
            A, Fn, Jn = self.problem(sim, g)
            newton = int(g.par["newton"])
            base = "%s %s, %s, %d equations %s" % (g.par["tag"], g.par["cfg"], "real" if g.real else "complex", n, g.lay[0])
            stol, ftol, maxit = float(g.par["stol"]), float(g.par["ftol"]), int(g.par["maxit"])
            xs = [[q for q in l if q["t"] == "x"] for l in seqs]
            if any(len(l) != len(g.par["prog"]) for l in xs):
                self.v("steps", case, "%s: processes report %s solves of %d" % (base, [len(l) for l in xs], len(g.par["prog"])), job)
                continue
            for s, op in enumerate(g.par["prog"]):
                recs = [l[s] for l in xs]
                what = "%s: step %d of %s" % (base, s, g.par["prog"])
                if op == "t":
                    stol, maxit = 1e-3, 40
                if op == "u":
                    stol, maxit = 1e-8, 2
                if any((q["tol"], q["maxit"]) != (stol, maxit) for q in recs):
                    self.v("settings", case, "%s: tolerance %g and iteration limit %d, set were %g and %d" % (what, recs[0]["tol"], recs[0]["maxit"], stol, maxit), job)
                if [q["rank"] for q in recs] != list(range(g.size)) or any(q["size"] != g.size for q in recs):
                    self.v("group", case, "%s: the solver has ranks %s" % (what, [q["rank"] for q in recs]), job)
                if len({(q["threw"] == "", q["nf"], q["nj"]) for q in recs}) != 1:
                    self.v("agree", case, "%s: processes differ in outcome or evaluations: %s" % (what, [(q["threw"], q["nf"], q["nj"]) for q in recs]), job)
                    continue
                threw, nf, nj = recs[0]["threw"], recs[0]["nf"], recs[0]["nj"]
                sol = [sim.val(1000 + 10 * s, i) for i in range(n)]
                z0 = Fn(sol, [0] * n)
                b = z0
                far = float(g.par["far"]) if op == "f" else 0.01 * int(g.par["near"])
                x0 = [sol[i] + sim.val(1001 + 10 * s, i) * far for i in range(n)]
                x = [z for q in recs for z in self.cx(q["x"], g.real)]
                it = [self.cx(q["x"], g.real) for q in seqs[0] if q["t"] == "F" and q["step"] == s]
                jt = [self.cx(q["x"], g.real) for q in seqs[0] if q["t"] == "J" and q["step"] == s]
                F = Fn(x, b) if all(abs(z) < 1e6 for z in x) else [1e30]
                f0 = nrm(Fn(x0, b))
                nx = max(nrm(x), 1.0)
                if len(it) != nf or len(jt) != nj or not it or any(abs(p - q) > 1e-13 * max(abs(q), 1) for p, q in zip(it[0], x0)):
                    self.v("evaluations", case, "%s: the first evaluation is not at the start" % what, job)
                    continue
                self.stat("solves")
                self.stat("evaluations", nf)
                self.stat("outcome:%s%s" % ("newton" if newton else "snes", "-failed" if threw else ""))
                if newton:
                    # the iterates are determined
                    u, k, bad, d = list(x0), 0, None, None
                    while k < maxit:
                        if k >= nf:
                            break
                        lim = 1e-8 * max(nrm(u), 1.0)
                        if k >= nj:
                            bad = "residual %d was evaluated, but only %d Jacobians" % (k, nj)
                            break
                        if nrm([p - q for p, q in zip(it[k], u)]) > lim or nrm([p - q for p, q in zip(jt[k], u)]) > lim:
                            bad = "evaluation %d is %g away from the Newton iterate (last step %g)" % (k, nrm([p - q for p, q in zip(it[k], u)]), nrm(d) if d else 0)
                            break
                        u = it[k]
                        if not all(abs(z) < 1e8 for z in u):
                            u = None
                            break
                        J, f = Jn(u), Fn(u, b)
                        if not max(abs(z) for r in J for z in r) < 1e5:
                            # the correction depends on the rounding of the linear solver
                            u = None
                            break
                        try:
                            d = [-z for z in self.gauss(J, [f])[0]]
                        except (ZeroDivisionError, OverflowError):
                            u = None
                            break
                        cond = max(abs(z) for z in d)
                        u = [p + q for p, q in zip(u, d)]
                        k += 1
                        if not cond < 1e4:
                            u = None
                            break
                        if k < nf and nrm(d) <= stol * 0.99 - 1e-12:
                            bad = "iteration %d moved %g, below the tolerance, and was not the last" % (k, nrm(d))
                            break
                    if bad:
                        self.v("newton", case, "%s: %s" % (what, bad), job)
                        continue
                    if u is None:
                        self.stat("runaway")
                        continue
                    last = nrm(d)
                    if nf != nj or k != nf:
                        self.v("newton", case, "%s: %d function and %d Jacobian evaluations, %d iterations expected at most" % (what, nf, nj, maxit), job)
                    if not threw and last > stol * 1.01 + 1e-12:
                        self.v("converged", case, "%s: reports success after %d iterations, the last moved the solution by %g" % (what, nf, last), job)
                    if threw and last < stol * 0.99 - 1e-12:
                        self.v("failed", case, "%s: fails (%s) although the last step was %g" % (what, threw, last), job)
                    if not threw and nrm([p - q for p, q in zip(x, u)]) > 1e-8 * nx:
                        self.v("solution", case, "%s: the solution returned is %g away from the last iterate" % (what, nrm([p - q for p, q in zip(x, u)])), job)
                    if threw and nf != maxit:
                        self.v("failed", case, "%s: fails (%s) after %d of %d iterations" % (what, threw, nf, maxit), job)
                else:
                    amax = max(sum(abs(z) for z in r) for r in Jn(x)) if all(abs(z) < 1e6 for z in x) else 1
                    lim = max(1.001 * ftol, 1.001e-8 * f0, 3 * amax * stol * nx)
                    steps = [nrm([p - q for p, q in zip(it[k], it[k - 1])]) for k in range(1, len(it))]
                    # a damped step that is shorter than the tolerance also ends the iteration
                    stalled = any(w <= 1.01 * stol * nx for w in steps)
                    if f0 < 1e12 and max(abs(z) for z in x0) < 40 and not threw and not stalled and not nrm(F) <= lim:
                        self.v("converged", case, "%s: reports success, the residual is %g (start %g)" % (what, nrm(F), f0), job)
                    if threw and op != "f" and maxit >= 30 and (far == 0 or int(g.par["cpct"]) == 0):
                        self.v("failed", case, "%s: fails from a start near the solution: %s" % (what, threw), job)
                    if nj > maxit:
                        self.v("iterations", case, "%s: %d iterations, the limit is %d" % (what, nj, maxit), job)
                if not threw and op != "f" and (far == 0 or int(g.par["cpct"]) == 0):
                    self.stat("solutions_compared")
                    err = nrm([p - q for p, q in zip(x, sol)])
                    fin = nrm(F)
                    lim = (3 * stol if newton else 3 * max(ftol, 1e-8 * f0) + 3 * stol * nx * max(sum(abs(z) for z in r) for r in A)) + 1e-9 * nx
                    self.smax("largest_error_over_bound", err / lim)
                    if err > lim * 3:
                        self.v("solution", case, "%s: the solution returned is %g away from the solution" % (what, err), job)
            self.ok((g.seed, g.size), {"processes": g.size, "equations": n, "solver": g.par["tag"], "configuration": g.par["cfg"], "steps": g.par["prog"]})
