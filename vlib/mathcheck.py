"""Programs of vector and matrix operations with a reference interpreter, for L01 and L02."""
import cmath, math
from .core import *
from . import netgen
from .parcheck import ParCheck

BIG = 1e5


def cval(k, real):
    return complex(hval(k), 0.0) if real else complex(hval(k), hval(mix(k)))


class Mx:
    def __init__(self, a, b, x, typ, grow, pat=None):
        self.a, self.b, self.x, self.typ, self.grow, self.pat = a, b, x, typ, grow, pat

    def copy(self):
        return Mx(self.a, self.b, [list(r) for r in self.x], self.typ, self.grow, self.pat)

    @property
    def dense(self):
        return self.typ in (1, 4, 5, 6, 7, 8)


class Sim:
    """reference meaning of every operation"""

    def __init__(self, seed, np, lay, real):
        self.seed, self.np, self.lay, self.real = seed, np, lay, real
        self.n = [sum(l) for l in lay]
        self.V, self.M = {}, {}
        self.step = 0
        self.obs = None

    def h(self, k, i, j=0):
        return hsh(self.seed, k, i, j)

    def val(self, k, i, j=0):
        return cval(self.h(k, i, j), self.real)

    def inpat(self, p, dens, i, j):
        return i == j or hsh(self.seed, 7000 + p, i, j) % 100 < dens

    def run(self, f):
        """returns ('v'|'m'|other, register); raises KeyError/ValueError when not applicable"""
        op, A = f[0], [int(x) for x in f[1:]] + [0] * 8
        r, a, b, c, d = A[:5]
        V, M = self.V, self.M
        if op == "new":
            V[r] = (a, [0j] * self.n[a])
        elif op == "set":
            s, x = V[r]
            V[r] = (s, [self.val(c, i) if b != 3 or self.h(c, i, 3) & 1 else x[i] for i in range(len(x))])
        elif op == "add":
            s, x = V[r]
            y = list(x)
            for i in range(len(y)):
                for q in range(1 if b == 2 else self.h(c, i, 3) % 3):
                    y[i] += self.val(c, i, 10 + q)
            V[r] = (s, y)
        elif op in ("fill", "zero", "scale", "addc", "abs", "real", "imag", "conj", "exp", "rec"):
            k = self.val(a, 0)
            fn = {"fill": lambda z: k, "zero": lambda z: 0j, "scale": lambda z: z * k, "addc": lambda z: z + k, "abs": lambda z: complex(abs(z)),
                  "real": lambda z: complex(z.real), "imag": lambda z: complex(z.imag), "conj": lambda z: z.conjugate(), "exp": cmath.exp,
                  "rec": lambda z: 1 / z}[op]
            if op == "rec" and any(abs(z) < 0.02 for z in V[r][1]) or op == "exp" and any(z.real > 6 or abs(z.imag) > 50 for z in V[r][1]):
                raise ValueError
            V[r] = (V[r][0], [fn(z) for z in V[r][1]])
        elif op in ("axpy", "axp1", "equ", "mul", "div"):
            if V[r][0] != V[a][0]:
                raise ValueError
            k = self.val(b, 0) if op == "axpy" else 1
            y = V[a][1]
            if r == a and op in ("axpy", "axp1"):
                raise ValueError
            if op == "div" and any(abs(z) < 0.02 for z in y):
                raise ValueError
            fn = {"axpy": lambda p, q: p + k * q, "axp1": lambda p, q: p + q, "equ": lambda p, q: q, "mul": lambda p, q: p * q, "div": lambda p, q: p / q}[op]
            V[r] = (V[r][0], [fn(p, q) for p, q in zip(V[r][1], y)])
        elif op in ("cln", "fabs", "freal", "fimag", "fconj"):
            if r == a:
                raise ValueError
            fn = {"cln": lambda z: z, "fabs": lambda z: complex(abs(z)), "freal": lambda z: complex(z.real), "fimag": lambda z: complex(z.imag), "fconj": lambda z: z.conjugate()}[op]
            V[r] = (V[a][0], [fn(z) for z in V[a][1]])
        elif op in ("fadd", "addr"):
            if V[a][0] != V[b][0] or r in (a, b) or a == b or op == "addr" and V[r][0] != V[a][0]:
                raise ValueError
            V[r] = (V[a][0], [p + q for p, q in zip(V[a][1], V[b][1])])
        elif op == "loc":
            V[r] = (V[r][0], [z + self.val(a, i) for i, z in enumerate(V[r][1])])
        elif op in ("norm", "lcl"):
            V[r]
            return op, r
        elif op == "sav":
            if V[r][0] != V[a][0]:
                raise ValueError
            V[r] = (V[r][0], list(V[a][1]))
        # ---------------- matrices
        elif op == "mnew":
            even = lambda l: all(x == sum(l) // len(l) + (1 if i < sum(l) % len(l) else 0) for i, x in enumerate(l))
            if a == 5 and (0 in self.lay[b] or 0 in self.lay[c]) or a in (6, 8) and not even(self.lay[b]) or a in (6, 7) and not even(self.lay[c]):
                raise ValueError
            M[r] = Mx(b, c, [[0j] * self.n[c] for _ in range(self.n[b])], a, a not in (2, 3), (d, A[5]))
            M[r].raw = True
            return "mn", r
        elif op in ("mset", "madd"):
            m = M[r]
            if (m.a, m.b) != (a, b) or not m.grow and m.pat != (c, d):
                raise ValueError
            for i in range(self.n[a]):
                for j in range(self.n[b]):
                    if self.inpat(c, d, i, j):
                        key = A[5]
                        if op == "mset":
                            m.x[i][j] = self.val(key, i, j * 4)
                        else:
                            for q in range(1 + self.h(key, i, 500 + j) % 2):
                                m.x[i][j] += self.val(key, i, j * 4 + q)
            m.raw = False
        elif op in ("mzero", "mscale", "mreal", "mimag", "mconj", "maddd", "mident", "mdiagv", "mmuld"):
            m = M[r]
            if getattr(m, "raw", False) and not (op == "mident" and m.a == m.b):
                raise ValueError
            k = self.val(a, 0)
            if op in ("maddd", "mident", "mdiagv", "mmuld"):
                if m.a != m.b or not m.grow and m.pat is None:
                    raise ValueError
                if op in ("mdiagv", "mmuld") and V[a][0] != m.a:
                    raise ValueError
                for i in range(self.n[m.a]):
                    if op == "mident":
                        m.x[i] = [1 + 0j if i == j else 0j for j in range(self.n[m.a])]
                    else:
                        m.x[i][i] = m.x[i][i] + k if op == "maddd" else m.x[i][i] + V[a][1][i] if op == "mdiagv" else m.x[i][i] * V[a][1][i]
                m.raw = False
            else:
                fn = {"mzero": lambda z: 0j, "mscale": lambda z: z * k, "mreal": lambda z: complex(z.real), "mimag": lambda z: complex(z.imag), "mconj": lambda z: z.conjugate()}[op]
                m.x = [[fn(z) for z in row] for row in m.x]
        elif op in ("mplus", "mequ"):
            m, o = M[r], M[a]
            if r == a or (m.a, m.b) != (o.a, o.b) or m.dense != o.dense or getattr(m, "raw", False) or getattr(o, "raw", False):
                raise ValueError
            if op == "mequ" and not m.grow and not (m.pat is not None and m.pat == o.pat):
                raise ValueError
            if op == "mplus":
                m.x = [[p + q for p, q in zip(u, w)] for u, w in zip(m.x, o.x)]
                if not m.dense:
                    m.grow, m.pat = False, m.pat if m.pat == o.pat else None
            else:
                m.x = [list(w) for w in o.x]
                if m.grow and not m.dense:
                    # PETSc: a sparse matrix that received a copy takes no new places afterwards
                    m.grow, m.pat = False, None
        elif op in ("mcln", "mfid", "mfreal", "mfimag", "mfconj", "mstor", "mt"):
            o = M[a]
            if r == a or getattr(o, "raw", False):
                raise ValueError
            if op == "mfid" and (o.a != o.b or not o.grow and o.pat is None):
                raise ValueError
            m = o.copy()
            if op == "mstor":
                if b != (1 if o.dense else 0):
                    m.typ, m.grow = (1 if b else 0), bool(b)
                    m.pat = None
            elif op == "mt":
                m.a, m.b = o.b, o.a
                m.x = [[o.x[i][j] for i in range(self.n[o.a])] for j in range(self.n[o.b])]
                m.grow, m.pat = m.dense, None
            elif op == "mfid":
                m.x = [[1 + 0j if i == j else 0j for j in range(self.n[o.a])] for i in range(self.n[o.a])]
            else:
                fn = {"mcln": lambda z: z, "mfreal": lambda z: complex(z.real), "mfimag": lambda z: complex(z.imag), "mfconj": lambda z: z.conjugate()}[op]
                m.x = [[fn(z) for z in row] for row in o.x]
            M[r] = m
        elif op == "mfadd":
            o, p = M[a], M[b]
            if r in (a, b) or a == b or (o.a, o.b) != (p.a, p.b) or o.dense != p.dense or getattr(o, "raw", False) or getattr(p, "raw", False):
                raise ValueError
            m = o.copy()
            m.x = [[u + w for u, w in zip(x, y)] for x, y in zip(o.x, p.x)]
            if not m.dense:
                m.grow, m.pat = False, m.pat if m.pat == p.pat else None
            M[r] = m
        elif op in ("mmm", "mmmr"):
            o, p = M[a], M[b]
            if r in (a, b) or o.b != p.a or getattr(o, "raw", False) or getattr(p, "raw", False):
                raise ValueError
            if not self.mm_ok(o, p) or op == "mmmr" and (M[r].a, M[r].b) != (o.a, p.b):
                raise ValueError
            x = [[sum(o.x[i][k] * p.x[k][j] for k in range(self.n[o.b])) for j in range(self.n[p.b])] for i in range(self.n[o.a])]
            dn = o.dense or p.dense
            M[r] = Mx(o.a, p.b, x, 1 if dn else 0, dn)
        elif op == "mdiag":
            s, x = V[a]
            M[r] = Mx(s, s, [[x[i] if i == j else 0j for j in range(len(x))] for i in range(len(x))], 1 if b else 0, bool(b))
        elif op == "mload":
            m, o = M[r], M[a]
            if r == a or (m.a, m.b) != (o.a, o.b) or getattr(m, "raw", False) or getattr(o, "raw", False):
                raise ValueError
            if m.dense != o.dense:
                raise ValueError
            m.x = [list(w) for w in o.x]
            if not m.dense:
                m.grow, m.pat = False, None
        elif op in ("mfile", "mlcl", "mnorm", "rows", "row"):
            if getattr(M[r], "raw", False) or op == "mfile" and M[r].dense:
                raise ValueError
            return op, r
        elif op in ("mv", "mvn", "tmv", "tmvn"):
            m, (s, x) = M[a], V[b]
            if r == b or getattr(m, "raw", False):
                raise ValueError
            tr = op[0] == "t"
            si, so = (m.a, m.b) if tr else (m.b, m.a)
            if s != si or not op.endswith("n") and V[r][0] != so:
                raise ValueError
            if tr:
                y = [sum(m.x[k][i] * x[k] for k in range(self.n[si])) for i in range(self.n[so])]
            else:
                y = [sum(m.x[i][k] * x[k] for k in range(self.n[si])) for i in range(self.n[so])]
            V[r] = (so, y)
        elif op in ("col", "coln", "dg", "dgn"):
            m = M[a]
            if getattr(m, "raw", False) or not op.endswith("n") and V[r][0] != m.a:
                raise ValueError
            if op[0] == "d":
                if m.a != m.b:
                    raise ValueError
                V[r] = (m.a, [m.x[i][i] for i in range(self.n[m.a])])
            else:
                if b >= self.n[m.b]:
                    raise ValueError
                V[r] = (m.a, [m.x[i][b] for i in range(self.n[m.a])])
        else:
            raise ValueError
        if op[0] == "m" and op not in ("mul", "mv", "mvn"):
            if any(abs(z) > BIG for row in M[r].x for z in row):
                raise OverflowError
            return "m", r
        if any(abs(z) > BIG for z in V[r][1]):
            raise OverflowError
        return "v", r

    def mm_ok(self, o, p):
        if self.np == 1:
            return not (o.dense and not p.dense) or True
        return not o.dense          # a dense left factor is not supported by PETSc without Elemental

    def state(self):
        return {k: (s, list(x)) for k, (s, x) in self.V.items()}, {k: m.copy() for k, m in self.M.items()}


class MathCheck(ParCheck):
    targets = ("vh_math",)
    exe = "vh/vh_math"
    mode = "alg"
    plan = {"quick": [(1, 40), (2, 80), (3, 100), (4, 100), (5, 80), (8, 80)],
            "thorough": [(1, 200), (2, 500), (3, 500), (4, 500), (5, 300), (6, 300), (7, 200), (8, 300)]}
    delays = [None]
    steps = 24

    def layout(self, sz, r, lo, hi):
        n = r.randint(lo, hi)
        style = r.randrange(4)
        if style == 0:
            l = [n // sz + (1 if i < n % sz else 0) for i in range(sz)]
        elif style == 1:
            l = [0] * sz
            for _ in range(n):
                l[r.randrange(sz)] += 1
        elif style == 2:
            l = [0] * sz
            l[r.randrange(sz)] = n
        else:
            l = [r.randint(0, max(1, 2 * n // sz)) for _ in range(sz)]
            if not sum(l):
                l[0] = n
        return l

    def propose(self, sim, r, solo):
        raise NotImplementedError

    def program(self, g, r, solo):
        sim = Sim(g.seed, g.size, g.lay, g.real)
        ops, tries = [], 0
        while len(ops) < self.steps and tries < 400:
            tries += 1
            f = [str(x) for x in self.propose(sim, r, solo)]
            saved = sim.state()
            raws = {k: getattr(m, "raw", False) for k, m in sim.M.items()}
            try:
                sim.run(f)
            except (KeyError, ValueError, OverflowError, ZeroDivisionError):
                sim.V, sim.M = saved[0], saved[1]
                for k, x in raws.items():
                    sim.M[k].raw = x
                continue
            for k, x in raws.items():
                pass
            ops.append(":".join(f))
        for k, m in sorted(sim.M.items()):
            if getattr(m, "raw", False):
                f = ["mset", k, m.a, m.b, m.pat[0], m.pat[1], 9, 1, 1]
                sim.run([str(x) for x in f])
                ops.append(":".join(map(str, f)))
        return "|".join(ops)

    def params(self, np, r):
        raise NotImplementedError

    def jobs(self):
        r = self.rng
        for np, cnt in self.plan[TIER]:
            for c0 in range(0, cnt, self.chunk):
                text, cases = "", {}
                for i in range(c0, min(cnt, c0 + self.chunk)):
                    cid = "p%d.%d" % (np, i)
                    k, style = 1, r.randrange(2)
                    if np >= 4 and r.random() < 0.4:
                        k = r.choice([2, 2, 3])
                    grp = []
                    for sz in netgen.color_sizes(np, k, style):
                        g = netgen.Net()
                        g.seed, g.size = r.randrange(1, 1 << 40), sz
                        g.real = r.random() < 0.4
                        g.lay = [self.layout(sz, r, *x) for x in ((1, 14), (1, 10), (2, 14))]
                        g.par = {"real": int(g.real)}
                        for s, l in enumerate(g.lay):
                            g.par["lay%d" % s] = ",".join(map(str, l))
                        g.par["prog"] = self.program(g, r, k == 1)
                        grp.append(g)
                    t = netgen.case_text(cid, grp, {"style": style})
                    cases[cid] = (t, grp)
                    text += t
                yield Job("%s#%d" % (self.id, np), self.exe, [self.mode, "@D/cases.txt", "@D/out"], np, cases=cases, text=text)

    # ------------------------------------------------------------------ judging
    def cx(self, flat, real):
        return [complex(x) for x in flat] if real else [complex(flat[i], flat[i + 1]) for i in range(0, len(flat), 2)]

    def cmp(self, case, key, got, ref, what, job):
        if len(got) != len(ref):
            self.v(key + "-length", case, "%s: %d values, expected %d" % (what, len(got), len(ref)), job)
            return
        top = max([abs(z) for z in ref] + [1e-3])
        for i, (g, e) in enumerate(zip(got, ref)):
            if not abs(g - e) <= 1e-9 * (abs(e) + 1e-4 * top):
                if not (abs(g - e) <= 1e-11 * top):
                    self.v(key, case, "%s: element %d is %r, expected %r" % (what, i, g, e), job)
                    return
        self.stat("values_compared", len(ref))

    def judge(self, job, res):
        for case, color, g, seqs in self.groups(job, res):
            sim = Sim(g.seed, g.size, g.lay, g.real)
            ops = g.par["prog"].split("|")
            it = 0
            ty = "real" if g.real else "complex"
            for s, o in enumerate(ops):
                f = o.split(":")
                kind, r = sim.run(f)
                if kind is None:
                    continue
                recs = [q[it] for q in seqs]
                it += 1
                what = "step %d (%s) of %s (%s, layout %s)" % (s, o, g.par["prog"], ty, g.lay)
                if any(x["step"] != s for x in recs):
                    self.v("record-order", case, "%s: %s" % (what, [x["step"] for x in recs]), job)
                    break
                self.one(case, job, sim, f, kind, r, recs, what, g)
                self.stat("op:" + f[0])
            for r in sorted(sim.V):
                self.one(case, job, sim, ["end"], "v", r, [q[it] for q in seqs], "after the program %s (%s, layout %s): vector %d" % (g.par["prog"], ty, g.lay, r), g)
                it += 1
            for r in sorted(sim.M):
                self.one(case, job, sim, ["end"], "m", r, [q[it] for q in seqs], "after the program %s (%s, layout %s): matrix %d" % (g.par["prog"], ty, g.lay, r), g)
                it += 1
            self.ok((g.seed, g.size), {"processes": g.size, "layout": g.lay, "type": ty, "program": g.par["prog"][:400]})

    def one(self, case, job, sim, f, kind, r, recs, what, g):
        op, real = f[0], g.real
        if kind == "v":
            s, ref = sim.V[r]
            lo = 0
            for p, x in enumerate(recs):
                n = g.lay[s][p]
                if (x["size"], x["lsize"], x["lo"], x["hi"]) != (sim.n[s], n, lo, lo + n):
                    self.v("vector-shape:" + op, case, "%s: process %d reports size %d, local %d, range %d..%d; expected %d, %d, %d..%d" % (what, p, x["size"], x["lsize"], x["lo"], x["hi"], sim.n[s], n, lo, lo + n), job)
                    return
                if not x["gathered"]:
                    self.v("gathered:" + op, case, "%s: getAllElements differs from the local parts on process %d" % (what, p), job)
                self.cmp(case, "vector:" + op, self.cx(x["x"], real), ref[lo:lo + n], "%s, process %d" % (what, p), job)
                lo += n
        elif kind == "norm":
            ref = [abs(z) for z in sim.V[r][1]]
            e = (sum(ref), math.sqrt(sum(z * z for z in ref)), max(ref))
            for p, x in enumerate(recs):
                for nm, got, ex in zip(("n1", "n2", "ni"), (x["n1"], x["n2"], x["ni"]), e):
                    self.cmp(case, "norm:" + nm, [complex(got)], [complex(ex)], "%s, process %d, %s" % (what, p, nm), job)
        elif kind == "lcl":
            s, ref = sim.V[r]
            for p, x in enumerate(recs):
                if (x["size"], x["lo"], x["hi"], x["procs"]) != (sim.n[s], 0, sim.n[s], 1):
                    self.v("local-clone-shape", case, "%s: %s" % (what, x), job)
                else:
                    self.cmp(case, "local-clone", self.cx(x["x"], real), ref, "%s, process %d" % (what, p), job)
        elif kind == "mnorm":
            e = math.sqrt(sum(abs(z) ** 2 for row in sim.M[r].x for z in row))
            for p, x in enumerate(recs):
                self.cmp(case, "matrix-norm", [complex(x["n2"])], [complex(e)], "%s, process %d" % (what, p), job)
        elif kind in ("rows", "row"):
            m = sim.M[r]
            for p, x in enumerate(recs):
                if not x["tail"]:
                    self.v("row-overrun", case, "%s: process %d, written past the requested rows" % (what, p), job)
                self.cmp(case, "matrix-rows", self.cx(x["x"], real), [z for i in x["rows"] for z in m.x[i]], "%s, process %d, rows %s" % (what, p, x["rows"]), job)
        else:
            m = sim.M[r]
            nr, nc = sim.n[m.a], sim.n[m.b]
            lo = 0
            for p, x in enumerate(recs):
                if kind == "mlcl":
                    exp = (nr, nc, nr, nc, 0, nr)
                elif kind == "mfile":
                    exp = (nr, nc, x["hi"] - lo, x["lcols"], lo, x["hi"])
                else:
                    exp = (nr, nc, g.lay[m.a][p], g.lay[m.b][p], lo, lo + g.lay[m.a][p])
                got = (x["rows"], x["cols"], x["lrows"], x["lcols"], x["lo"], x["hi"])
                if got != exp:
                    self.v("matrix-shape:" + op, case, "%s: process %d reports (rows, columns, local rows, local columns, range) %s, expected %s" % (what, p, got, exp), job)
                    return
                if kind != "mfile" and x["dense"] != m.dense:
                    self.v("storage:" + op, case, "%s: process %d reports %s storage" % (what, p, "dense" if x["dense"] else "sparse"), job)
                if kind != "mn":
                    self.cmp(case, "matrix:" + op, self.cx(x["x"], real), [z for i in range(exp[4], exp[5]) for z in m.x[i]], "%s, process %d" % (what, p), job)
                if kind != "mlcl":
                    lo = exp[5]
            if kind == "mfile" and lo != nr:
                self.v("matrix-shape:" + op, case, "%s: rows %d of %d present" % (what, lo, nr), job)
