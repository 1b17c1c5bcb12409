import cmath, math
"""What the printed results of a power flow must be, given the network and the printed voltages."""

SOLVERS = ["-ksp_type richardson -pc_type lu -pc_factor_mat_solver_type superlu_dist -ksp_max_it 1",
           "-ksp_type preonly -pc_type lu -pc_factor_mat_solver_type mumps"]


def deck(grid, r, tol, extra=""):
    key = {23: "networkConfiguration", 33: "networkConfiguration_v33", 34: "networkConfiguration_v34", 35: "networkConfiguration_v35"}[grid.ver]
    if grid.mat:
        key = "networkConfiguration_mat"
    return """<?xml version="1.0" encoding="utf-8"?>
<Configuration><Powerflow>
<%s> %s </%s>
<maxIteration>50</maxIteration><tolerance>%.1e</tolerance><phaseShiftSign>%s</phaseShiftSign>
<LinearSolver><SolutionTolerance>1.0E-15</SolutionTolerance><PETScOptions> %s </PETScOptions></LinearSolver>
<UseNewton>%s</UseNewton>
<NewtonRaphsonSolver><SolutionTolerance>1.0E-08</SolutionTolerance><FunctionTolerance>1.0E-10</FunctionTolerance><MaxIterations>50</MaxIterations>
<LinearSolver><SolutionTolerance>1.0E-15</SolutionTolerance><PETScOptions> %s </PETScOptions></LinearSolver></NewtonRaphsonSolver>
<NonlinearSolver><SolutionTolerance>1.0E-09</SolutionTolerance><FunctionTolerance>1.0E-09</FunctionTolerance><MaxIterations>50</MaxIterations>
<PETScOptions> -snes_type newtonls %s </PETScOptions></NonlinearSolver>
%s</Powerflow></Configuration>
""" % (key, grid.path, key, tol, "-1.0" if grid.sign < 0 else "1.0", SOLVERS[grid.solver], "true" if grid.newton else "false", SOLVERS[grid.solver],
       SOLVERS[grid.solver].replace("richardson", "preonly").replace("-ksp_max_it 1", ""), extra)


def parse(rec):
    """printed results of one network: voltages, generators and branch flows"""
    v, g, fl = [], [], []
    for s in rec["v"]:
        for l in s.strip("\n").split("\n"):
            t = l.split()
            if t:
                v.append((int(t[0]), float(t[1]), float(t[2]), int(t[3]), int(t[4])))
    for s in rec["g"]:
        for l in s.strip("\n").split("\n"):
            t = l.split()
            if t:
                g.append((int(t[0]), t[1], float(t[2]), float(t[3])))
    for s in rec["f"]:
        for l in s.strip("\n").split("\n"):
            t = l.split()
            if t:
                fl.append((int(t[0]), int(t[1]), t[2], float(t[3]), float(t[4]), float(t[5]), float(t[6]), int(t[7])))
    return v, g, fl


def once(what, have, want):
    from collections import Counter
    h, w = Counter(have), Counter(want)
    for k in w:
        if h[k] != w[k]:
            return "%s %s reported %d times, the network has %d" % (what, k, h[k], w[k])
    for k in h:
        if k not in w:
            return "%s %s reported, the network has none" % (what, k)
    return None


def angdiff(a, b):
    return abs((a - b + 180.0) % 360.0 - 180.0)


def judge(g, rec, tol, lines_out=(), gens_out=(), stats=None, flows=True):
    """what is wrong with one set of printed results, or None.  g: pfgen.Grid; lines_out, gens_out: indices out of service besides those of the file"""
    v, gen, fl = parse(rec)
    w = once("bus", [x[0] for x in v], list(g.buses))
    if w:
        return w
    w = once("generator", [x[:2] for x in gen], [(q["bus"], q["id"]) for q in g.gens])
    if w:
        return w
    V = {x[0]: cmath.rect(x[2], math.radians(x[1])) for x in v}
    for x in v:
        if not (math.isfinite(x[1]) and math.isfinite(x[2])):
            return "bus %d: voltage reported as %s, %s" % (x[0], x[1], x[2])
    S = g.inject(V, lines_out)
    sb = g.sbase
    got = {(x[0], x[1]): (x[2], x[3]) for x in gen}
    worst = 0.0
    for b, d in g.buses.items():
        if d["type"] == 4:
            continue
        mine = [(n, q) for n, q in enumerate(g.gens) if q["bus"] == b]
        on = [q for n, q in mine if q["st"] and n not in gens_out]
        L = g.load(b)
        for n, q in mine:
            if q not in on and d["type"] != 3 and got[b, q["id"]] != (0.0, 0.0):
                return "bus %d: generator %s is out of service but reported with P %.9g Q %.9g" % ((b, q["id"]) + got[b, q["id"]])
        fix = d["type"] == 3 or (d["type"] == 2 and on)
        if fix and on:
            if abs(abs(V[b]) - on[-1]["vs"]) > 1e-9:
                return "bus %d regulates its voltage to %.10f, reported %.10f" % (b, on[-1]["vs"], abs(V[b]))
        if d["type"] == 3:
            if angdiff(g.vinit[b][1], math.degrees(cmath.phase(V[b]))) > 1e-7:
                return "reference bus %d: angle of the file %.9g, reported %.9g" % (b, g.vinit[b][1], math.degrees(cmath.phase(V[b])))
        P = sum(q["pg"] for q in on)
        Q = sum(q["qg"] for q in on)
        mis = S[b] * sb - (complex(P, Q) - L)
        if d["type"] != 3:
            e = abs(mis.real) / sb
            worst = max(worst, e)
            if not e <= tol:
                return "bus %d: real power does not balance: network %.9g MW, generation minus load %.9g MW" % (b, S[b].real * sb, P - L.real)
            if not fix:
                e = abs(mis.imag) / sb
                worst = max(worst, e)
                if not e <= tol:
                    return "bus %d: reactive power does not balance: network %.9g MVAr, generation minus load %.9g MVAr" % (b, S[b].imag * sb, Q - L.imag)
        need = S[b] * sb + L
        eps = (200 * tol + 1e-9) * sb
        span = sum(q["pt"] - q["pb"] for q in on)
        for q in on:
            p, qq = got[b, q["id"]]
            share = (q["pt"] - q["pb"]) / span if len(mine) > 1 else 1.0
            ep, eq = (share * need.real, share * need.imag) if d["type"] == 3 else (q["pg"], share * need.imag if fix else q["qg"])
            if abs(p - ep) > eps + 1e-8 * abs(ep) or abs(qq - eq) > eps + 1e-8 * abs(eq):
                return "bus %d generator %s: reported P %.9g Q %.9g, must be P %.9g Q %.9g" % (b, q["id"], p, qq, ep, eq)
    if stats is not None:
        stats["worst"] = max(stats.get("worst", 0), worst)
    if flows:
        return judge_flows(g, fl, V, lines_out)


def judge_flows(g, fl, V, lines_out=()):
    want = {}
    active = {}
    for n, l in enumerate(g.lines):
        k = frozenset((l["f"], l["t"]))
        active[k] = active.get(k, False) or bool(l["st"])
        want[k, l["ckt"]] = n
    w = once("circuit", [(frozenset(x[:2]), x[2]) for x in fl], [k for k in want if active[k[0]]])
    if w:
        return w
    for x in fl:
        n = want[frozenset(x[:2]), x[2]]
        l = g.lines[n]
        s = g.flow(l, V)[0 if x[0] == l["f"] else 1] if l["st"] and n not in lines_out else 0j
        if g.buses[l["f"]]["type"] == 4 or g.buses[l["t"]]["type"] == 4:
            s = 0j
        if abs(s.real - x[3]) > 1e-6 * (1 + abs(s)) or abs(s.imag - x[4]) > 1e-6 * (1 + abs(s)):
            return "circuit %d-%d %s: reported P %.9g Q %.9g, must be P %.9g Q %.9g" % (x[0], x[1], x[2], x[3], x[4], s.real, s.imag)
        ra = l["rate"][0]
        if abs(x[6] - ra) > 1e-9 * (1 + ra):
            return "circuit %d-%d %s: rating %.9g in the file, reported %.9g" % (x[0], x[1], x[2], ra, x[6])
        if l["st"] and n not in lines_out and ra > 0 and abs(abs(s) / ra - 1) > 1e-6 and x[7] != int(abs(s) > ra):
            return "circuit %d-%d %s: flow %.6g MVA, rating %.6g, overload reported as %d" % (x[0], x[1], x[2], abs(s), ra, x[7])
    return None




def state(g, lines_out=(), gens_out=(), converted=None, gens=None, loads=None):
    """the network as it is with elements out of service, buses at their reactive limit and scaled power; second result: the buses cut off"""
    import copy
    h = copy.copy(g)
    h.buses = {b: dict(d) for b, d in g.buses.items()}
    h.gens = [dict(q) for q in (gens or g.gens)]
    h.loads = [dict(q) for q in (loads or g.loads)]
    live = {b for n, l in enumerate(g.lines) if l["st"] and n not in lines_out for b in (l["f"], l["t"])}
    lone = [b for b, d in h.buses.items() if d["type"] != 4 and b not in live]
    for b in lone:
        h.buses[b]["type"] = 4
    for b, side in (converted or {}).items():
        if h.buses[b]["type"] == 2:
            h.buses[b]["type"] = 1
        for n, q in enumerate(h.gens):
            if q["bus"] == b:
                q["qg"] = q["qt" if side > 0 else "qb"]
    return h, lone


def demand(h, V, lines_out, gens_out):
    """reactive power (MVAr) every voltage controlled bus needs from its generators, with the limits of those in service"""
    S = h.inject(V, lines_out)
    out = {}
    for b, d in h.buses.items():
        on = [q for n, q in enumerate(h.gens) if q["bus"] == b and q["st"] and n not in gens_out]
        if d["type"] == 2 and on:
            out[b] = (S[b].imag * h.sbase + h.load(b).imag, sum(q["qb"] for q in on), sum(q["qt"] for q in on))
    return out


def newton(h, V0, lines_out=(), gens_out=(), tol=1e-9, maxit=12):
    """power flow by Newton's method from V0; (voltages, iterations) or (None, iterations).  h: as returned by state()"""
    Y = h.ybus(lines_out)
    rows = {}
    for (i, j), y in Y.items():
        rows.setdefault(i, []).append((j, y))
    on = {}
    for n, q in enumerate(h.gens):
        if q["st"] and n not in gens_out:
            on.setdefault(q["bus"], []).append(q)
    V = {b: V0[b] for b in h.buses}
    pv, pq = [], []
    spec = {}
    for b, d in h.buses.items():
        if d["type"] == 4:
            continue
        g = on.get(b, [])
        spec[b] = (sum(complex(q["pg"], q["qg"]) for q in g) - h.load(b)) / h.sbase
        if d["type"] == 3 or (d["type"] == 2 and g):
            if g:
                V[b] = cmath.rect(g[-1]["vs"], cmath.phase(V[b]))
            if d["type"] == 2:
                pv.append(b)
        else:
            pq.append(b)
    ia = {b: k for k, b in enumerate(pv + pq)}
    im = {b: k + len(ia) for k, b in enumerate(pq)}
    n = len(ia) + len(im)
    for it in range(maxit + 1):
        S, I = {}, {}
        for b in ia:
            I[b] = sum((y * V[j] for j, y in rows.get(b, ())), 0j)
            S[b] = V[b] * I[b].conjugate()
        F = [0.0] * n
        for b, k in ia.items():
            F[k] = (spec[b] - S[b]).real
        for b, k in im.items():
            F[k] = (spec[b] - S[b]).imag
        worst = max([abs(x) for x in F] or [0.0])
        if not worst < 1e6:
            return None, it
        if worst < tol:
            return V, it
        A = [[0.0] * n + [F[k]] for k in range(n)]
        for b, k in ia.items():
            vb = V[b]
            for j, y in rows.get(b, ()):
                t = vb * (y * V[j]).conjugate()
                if j in ia:
                    dS = -1j * t
                    if j == b:
                        dS += 1j * S[b]
                    A[k][ia[j]] += dS.real
                    if b in im:
                        A[im[b]][ia[j]] += dS.imag
                if j in im:
                    dS = t / abs(V[j])
                    if j == b:
                        dS += S[b] / abs(vb)
                    A[k][im[j]] += dS.real
                    if b in im:
                        A[im[b]][im[j]] += dS.imag
        for c in range(n):
            p = max(range(c, n), key=lambda r: abs(A[r][c]))
            if abs(A[p][c]) < 1e-12:
                return None, it
            A[c], A[p] = A[p], A[c]
            rc = A[c]
            for r in range(c + 1, n):
                x = A[r][c]
                if x:
                    x /= rc[c]
                    rr = A[r]
                    A[r] = rr[:c + 1] + [u - x * w if w else u for u, w in zip(rr[c + 1:], rc[c + 1:])]
        X = [0.0] * n
        for c in range(n - 1, -1, -1):
            X[c] = (A[c][n] - sum(a * x for a, x in zip(A[c][c + 1:n], X[c + 1:]) if a)) / A[c][c]
        for b, k in ia.items():
            m = abs(V[b]) + (X[im[b]] if b in im else 0.0)
            if not 0.05 < m < 10:
                return None, it
            V[b] = cmath.rect(m, cmath.phase(V[b]) + X[k])
    return None, maxit
