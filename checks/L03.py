from vlib.mathcheck import *

KSP = ["", "-ksp_type~gmres", "-ksp_type~gmres~-pc_type~jacobi", "-ksp_type~bcgs~-pc_type~bjacobi", "-ksp_type~fgmres~-pc_type~none", "-ksp_type~gmres~-pc_type~asm"]
LU = ["-ksp_type~preonly~-pc_type~lu~-pc_factor_mat_solver_type~mumps", "-ksp_type~preonly~-pc_type~lu~-pc_factor_mat_solver_type~superlu_dist",
      "-ksp_type~richardson~-pc_type~lu~-pc_factor_mat_solver_type~superlu_dist"]


class L03(MathCheck):
    id = "L03"
    mode = "lin"
    plan = {"quick": [(1, 60), (2, 80), (3, 80), (4, 80), (5, 60), (8, 60)],
            "thorough": [(1, 300), (2, 500), (3, 500), (4, 500), (5, 300), (6, 300), (7, 200), (8, 300)]}
    rule = ("a case is a diagonally dominant matrix of 1..16 rows distributed at random, a random solver configuration (iterative and direct methods, forced serial solution, "
            "constant matrix, zero or non-zero initial guess, several packages and orderings) and a sequence of solves, repeated solves with new right hand sides, changes of "
            "the matrix and solves for many right hand sides; every solution is put into the equations and compared with an elimination done here; distinct by (seed, processes)")

    def common(self, r, np):
        """simultaneous groups share the configuration, since forced serial solution makes communicators"""
        cfg, par = [], {}
        if r.random() < 0.2:
            par["lms"], par["ls"], par["tag"] = 1, 0, "LinearMatrixSolver"
            if r.random() < 0.7:
                cfg.append("Ordering=" + r.choice(["natural", "nd", "1wd", "rcm", "qmd", "rowlength", "ND"]))
            cfg.append("Package=" + r.choice(["mumps", "superlu_dist"] + (["petsc"] if np == 1 else [])))
            if r.random() < 0.5:
                cfg.append("Fill=%d" % r.randint(1, 9))
            if r.random() < 0.5:
                cfg.append("Pivot=" + r.choice(["true", "false"]))
            par["prog"] = "M" * r.randint(1, 4)
            par["type"] = 0
        else:
            par["ls"], par["lms"], par["tag"] = 1, 0, "LinearSolver"
            cfg.append("SolutionTolerance=1.0e-14")
            cfg.append("RelativeTolerance=1.0e-11")
            cfg.append("MaxIterations=%d" % r.choice([300, 1000]))
            serial = r.random() < 0.4
            const = False
            if serial:
                cfg.append("ForceSerial=true")
                const = r.random() < 0.4
                if const:
                    cfg.append("SerialMatrixConstant=true")
            zero = r.random() < 0.4
            if zero:
                cfg.append("InitialGuessZero=true")
            par["type"] = r.choice([0, 0, 0, 2, 2, 1])
            opt = r.choice(KSP + (LU if par["type"] != 1 else []))
            if serial and par["type"] != 1 and r.random() < 0.3:     # a factorisation that exists on one process only
                opt = "-ksp_type~preonly~-pc_type~lu~-pc_factor_mat_solver_type~petsc"
            if opt.endswith("jacobi") and par["type"] == 1 or "asm" in opt and par["type"] == 1 or opt in ("", "-ksp_type~gmres") and par["type"] == 1:
                opt = "-ksp_type~gmres~-pc_type~none"
            if "preonly" in opt and not zero:
                cfg.append("InitialGuessZero=true")
            if opt:
                cfg.append("PETScOptions=" + opt)
            n = r.randint(2, 6)
            p = "".join(r.choice("SSRRsrAB") for _ in range(n))
            p = p.replace("A", "" if const else "AS")
            par["prog"] = "S" + p
        par["dens"] = r.choice([0, 10, 30, 70])
        par["bdense"] = r.randrange(2)
        if r.random() < 0.25:
            cfg.append("PETScPrefix=" + r.choice(["px", "qq_"]))
        par["cfg"] = ";".join(cfg)
        return par

    def jobs(self):
        r = self.rng
        for np, cnt in self.plan[TIER]:
            for c0 in range(0, cnt, self.chunk):
                text, cases = "", {}
                for i in range(c0, min(cnt, c0 + self.chunk)):
                    cid = "p%d.%d" % (np, i)
                    k, style = 1, r.randrange(2)
                    if np >= 4 and r.random() < 0.35:
                        k = 2
                    com = self.common(r, np)
                    grp = []
                    for sz in netgen.color_sizes(np, k, style):
                        g = netgen.Net()
                        g.seed, g.size = r.randrange(1, 1 << 40), sz
                        g.real = r.random() < 0.4
                        g.lay = [self.layout(sz, r, 1, 16), self.layout(sz, r, 1, 6)]
                        g.par = dict(com, real=int(g.real))
                        if "mumps" not in g.par["cfg"] and sum(g.lay[0]) and 0 in g.lay[0] and ("bjacobi" in g.par["cfg"] or "superlu" in g.par["cfg"]):
                            pass
                        for s, l in enumerate(g.lay):
                            g.par["lay%d" % s] = ",".join(map(str, l))
                        grp.append(g)
                    t = netgen.case_text(cid, grp, {"style": style})
                    cases[cid] = (t, grp)
                    text += t
                yield Job("%s#%d" % (self.id, np), self.exe, [self.mode, "@D/cases.txt", "@D/out"], np, cases=cases, text=text)

    def matrix(self, sim, key, dens):
        n = sim.n[0]
        A = [[0j] * n for _ in range(n)]
        for i in range(n):
            s = 0.0
            for j in range(n):
                if i != j and sim.inpat(0, dens, i, j):
                    A[i][j] = sim.val(key, i, j)
                    s += abs(A[i][j])
            x = sim.val(key, i, i)
            m = abs(x)
            if m < 1e-3:
                x, m = 1 + 0j, 1.0
            A[i][i] = x * ((1.0 + 1.3 * s) / m)
        return A

    def gauss(self, A, B):
        """columns of B solved by elimination with pivoting"""
        n = len(A)
        M = [list(A[i]) + [col[i] for col in B] for i in range(n)]
        for k in range(n):
            p = max(range(k, n), key=lambda i: abs(M[i][k]))
            M[k], M[p] = M[p], M[k]
            for i in range(n):
                if i != k and M[i][k]:
                    f = M[i][k] / M[k][k]
                    M[i] = [u - f * w for u, w in zip(M[i], M[k])]
        return [[M[i][n + c] / M[i][i] for i in range(n)] for c in range(len(B))]

    def close(self, case, job, A, b, x, what, key):
        e = self.gauss(A, [b])[0]
        nb = max(max(map(abs, b)), 1e-30)
        ne = max(max(map(abs, e)), 1e-30)
        res = max(abs(sum(a * z for a, z in zip(row, x)) - bi) for row, bi in zip(A, b))
        err = max(abs(p - q) for p, q in zip(x, e))
        self.smax("largest_relative_residual", res / nb)
        self.stat("solutions_checked")
        if not (res <= 1e-6 * nb and err <= 1e-6 * ne):
            self.v(key, case, "%s: residual %g (right hand side up to %g), distance from the solution %g (of %g)" % (what, res, nb, err, ne), job)

    def judge(self, job, res):
        for case, color, g, seqs in self.groups(job, res):
            sim = Sim(g.seed, g.size, g.lay, g.real)
            n, dens = sim.n[0], int(g.par["dens"])
            mats = {}
            base = "%s %s %s, type %s, %d rows %s" % (g.par["tag"], g.par["cfg"], "real" if g.real else "complex", g.par["type"], n, g.lay[0])
            it = 0
            L = min(len(q) for q in seqs)
            if L != max(len(q) for q in seqs):
                self.v("record-order", case, "processes reported different steps", job)
                continue
            serial = "-serial" if "ForceSerial" in g.par["cfg"] and g.size > 1 else ""
            while it < L:
                recs = [q[it] for q in seqs]
                it += 1
                if recs[0]["t"] == "x":
                    ak = recs[0]["akey"]
                    A = mats.setdefault(ak, self.matrix(sim, ak, dens))
                    x = [z for q in recs for z in self.cx(q["x"], g.real)]
                    b = [z for q in recs for z in self.cx(q["b"], g.real)]
                    s = recs[0]["step"]
                    if b != [sim.val(100 + 10 * s, i) for i in range(n)]:
                        self.v("rhs-changed", case, "%s: step %d of %s changed the right hand side" % (base, s, g.par["prog"]), job)
                    self.close(case, job, A, b, x, "%s: step %d of %s" % (base, s, g.par["prog"]), "solution" + serial)
                    self.stat("method:" + (g.par["cfg"].split("PETScOptions=")[1].split(";")[0] if "PETScOptions" in g.par["cfg"] else "default") + serial)
                elif recs[0]["t"] == "B":
                    nc = sim.n[1]
                    row = lambda rs: [z for q in rs for z in self.cx(q["x"], g.real)]
                    B = row(recs)
                    ks = [q[it] for q in seqs]
                    X = row([q[it + 1] for q in seqs])
                    xs = [q[it + 1] for q in seqs]
                    it += 2
                    ak = ks[0]["akey"]
                    A = mats.setdefault(ak, self.matrix(sim, ak, dens))
                    what = "%s: step %d of %s" % (base, recs[0]["step"], g.par["prog"])
                    if (xs[0]["rows"], xs[0]["cols"]) != (n, nc) or len(X) != n * nc:
                        self.v("matrix-solution-shape", case, "%s: the solution is %dx%d" % (what, xs[0]["rows"], xs[0]["cols"]), job)
                        continue
                    for c in range(nc):
                        b, x = [B[i * nc + c] for i in range(n)], [X[i * nc + c] for i in range(n)]
                        if any(b):
                            self.close(case, job, A, b, x, what + " column %d" % c, "matrix-solution" + serial)
                    self.stat("method:" + ks[0]["op"])
                else:
                    self.v("record-order", case, "unexpected record %s" % recs[0]["t"], job)
                    break
            self.ok((g.seed, g.size), {"processes": g.size, "rows": n, "configuration": g.par["cfg"], "steps": g.par["prog"]})
