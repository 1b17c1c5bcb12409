from vlib.mathcheck import *


class L02(MathCheck):
    id = "L02"
    steps = 20
    rule = ("a case is a program of up to 20 operations on up to five matrices (sparse, dense, preallocated in two ways, square and rectangular) and four vectors, distributed at "
            "random, including processes without rows or columns, in real or complex numbers, on 1..8 processes or in simultaneous groups; after each operation every "
            "element, shape, row range and storage type is compared with a reference interpreter; distinct by (seed, processes)")

    def propose(self, sim, r, solo):
        V, M = sorted(sim.V), sorted(sim.M)
        key = r.randrange(1, 5000)
        for m in M:
            if getattr(sim.M[m], "raw", False):
                x = sim.M[m]
                if x.a == x.b and x.grow and r.random() < 0.15:
                    return ["mident", m]
                return [r.choice(["mset", "mset", "madd"]), m, x.a, x.b, x.pat[0], x.pat[1], key, r.randrange(2), r.randrange(2)]
        for v in V:
            if not any(sim.V[v][1]) and r.random() < 0.8:
                return ["set", v, sim.V[v][0], r.randrange(3), key]
        if len(M) < 2 or r.random() < 0.12:
            a = r.randrange(3)
            b = a if r.random() < 0.55 else r.randrange(3)
            return ["mnew", r.randrange(5), r.choice([0, 0, 0, 1, 1, 2, 3, 3, 4, 5, 6, 7, 8]), a, b, r.randrange(4), r.choice([5, 20, 50, 90])]
        if len(V) < 2 or r.random() < 0.08:
            return ["new", r.randrange(4), r.randrange(3)]
        m, n = r.choice(M), r.choice(M)
        v, w = r.choice(V), r.choice(V)
        x = sim.M[m]
        op = r.choice(["mset", "mset", "madd", "madd", "mzero", "mident", "mscale", "maddd", "mdiagv", "mmuld", "mplus", "mplus", "mequ", "mequ", "mreal", "mimag", "mconj",
                       "mcln", "mfadd", "mfid", "mfreal", "mfimag", "mfconj", "mt", "mt", "mmm", "mmm", "mmmr", "mmm", "mstor", "mdiag", "mload", "mfile", "mlcl", "mnorm",
                       "rows", "rows", "row", "mv", "mv", "mvn", "tmv", "tmv", "tmvn", "col", "coln", "dg", "dgn"])
        if op in ("mset", "madd"):
            p = x.pat if not x.grow and x.pat else (r.randrange(4), r.choice([5, 20, 50]))
            return [op, m, x.a, x.b, p[0], p[1], key, r.randrange(2), r.randrange(2)]
        if op in ("mscale", "maddd"):
            return [op, m, key]
        if op in ("mdiagv", "mmuld"):
            return [op, m, v]
        if op in ("mplus", "mequ", "mload"):
            return [op, m, n]
        if op in ("mcln", "mfid", "mfreal", "mfimag", "mfconj", "mt"):
            return [op, r.randrange(5), m]
        if op in ("mfadd", "mmm", "mmmr"):
            return [op, r.randrange(5), m, n]
        if op == "mstor":
            return [op, r.randrange(5), m, r.randrange(2)]
        if op == "mdiag":
            return [op, r.randrange(5), v, r.randrange(2)]
        if op == "rows":
            return [op, m, key, r.choice([0, 20, 60, 100])]
        if op == "row":
            return [op, m, key]
        if op in ("mv", "tmv"):
            return [op, v, m, w]
        if op in ("mvn", "tmvn"):
            return [op, r.randrange(4), m, w]
        if op == "col":
            return [op, v, m, r.randrange(max(1, sim.n[x.b]))]
        if op == "coln":
            return [op, r.randrange(4), m, r.randrange(max(1, sim.n[x.b]))]
        if op in ("dg",):
            return [op, v, m]
        if op == "dgn":
            return [op, r.randrange(4), m]
        return [op, m]
