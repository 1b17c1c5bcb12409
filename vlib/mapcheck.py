"""Dense reference for the mapper checks: what every matrix and vector element must be,
computed from the same hash functions the harness components use."""
from .netcheck import *


class Ref:
    def __init__(self, net):
        self.net = net
        self.S = net.seed
        p = net.par
        self.sq, self.fix, self.nsl, self.lowid = (int(p.get(k, d)) for k, d in (("sq", 0), ("fix", 0), ("nsl", 1), ("lowid", 0)))
        self.ends = {g: (a, b) for g, a, b, _ in net.branches}
        self.inc = {o: [] for o, _, _ in net.buses}
        for g, a, b, _ in net.branches:
            self.inc[a].append((g, b))
            self.inc[b].append((g, a))

    def contrib(self, o):
        return hsh(self.S, 5, o) % 8 != 0

    def I(self, o):
        return self.fix or 1 + (hsh(self.S, 5, o) >> 8) % 3

    def J(self, o):
        return self.fix or (self.I(o) if self.sq else 1 + (hsh(self.S, 5, o) >> 16) % 3)

    def val(self, ep, kind, i_d, i, j, real):
        re = hval(hsh(self.S + ep, kind, i_d, i * 16 + j))
        return complex(re, 0.0 if real else hval(hsh(self.S + ep, kind + 50, i_d, i * 16 + j)))

    def answers(self, ep, kind, i_d, part):
        return not part or hsh(self.S + ep, kind + 20, i_d) % 3 == 0

    # the blocks of the matrix: (kind, id, row bus, column bus)
    def blocks(self):
        for o in self.inc:
            if self.contrib(o):
                yield 1, o, o, o
        for g, (a, b) in self.ends.items():
            if self.contrib(a) and self.contrib(b):
                if hsh(self.S, 6, g) % 6 != 0:
                    yield 2, g, a, b
                if hsh(self.S, 7, g) % 6 != 0:
                    yield 3, g, b, a

    # generalised interface
    def low(self, k, t):
        return not self.lowid or (k == 0 and t == self.lowid)

    def gR(self, k, t):
        return hsh(self.S, 30 + k, t) % 4 if self.low(k, t) else 0

    def gC(self, k, t):
        return hsh(self.S, 40 + k, t) % 4

    def gV(self, k, t):
        return hsh(self.S, 60 + k, t) % 4

    def gS(self, k, t):
        return (2 if self.low(k, t) else 0) if self.lowid else hsh(self.S, 70 + k, t) % 4

    def objects(self):
        for o in self.inc:
            yield 0, o
        for g in self.ends:
            yield 1, g

    def entries(self, ep, part):
        """(kind, tag, row i, other kind, other tag, column j, value)"""
        for k, t in self.objects():
            if not self.answers(ep, 100 + k, t, part):
                continue
            if k == 0:
                oth = [(0, t)] + [(1, g) for g, _ in self.inc[t]] + [(0, b) for _, b in self.inc[t]]
            else:
                oth = [(1, t), (0, self.ends[t][0]), (0, self.ends[t][1])]
            nr = self.gR(k, t)
            for ok, ot in oth:
                for i in range(nr):
                    for j in range(self.gC(ok, ot)):
                        hh = hsh(t, ot)
                        if hsh(self.S, 110 + 2 * k + ok, hh, i * 16 + j) % 4 == 0:
                            continue
                        h = hsh(self.S + ep, 120 + 2 * k + ok, hh, i * 16 + j)
                        yield k, t, i, ok, ot, j, complex(hval(h), hval(hsh(h)))


def close(a, b):
    return abs(a - b) <= 1e-12 * max(1.0, abs(a), abs(b))


class MapCheck(NetCheck):
    targets = ("vh_map",)
    exe = "vh/vh_map"
    maxn = 46

    def diff(self, case, key, got, want, what, job):
        """got/want: {(i,j): value}"""
        bad = [(p, got.get(p), want.get(p)) for p in sorted(set(got) | set(want)) if not close(got.get(p, 0j), want.get(p, 0j))]
        if bad:
            sub = "lost" if all(g is None for _, g, _ in bad) else "misplaced" if any(w is None for _, _, w in bad) else "value"
            self.v(key + "-" + sub, case, "%s: %d of %d elements differ; position, found, expected: %s" % (what, len(bad), len(want), [(p, str(g), str(w)) for p, g, w in bad[:6]]), job)
        return not bad

    def gather(self, case, recs, job, what):
        """stack the local row blocks; returns ({(i,j): value}, rows, cols)"""
        lo, got = 0, {}
        for r in recs:
            if r["badcall"]:
                self.v("component-call", case, "%s: the mapper asked a component for %s" % (what, r["badcall"]), job)
            if r["lo"] != lo:
                self.v("row-ranges", case, "%s: process %d holds rows %d..%d, expected to start at %d" % (what, r["me"], r["lo"], r["hi"], lo), job)
            lo = r["hi"]
            for i, j, a, b in r["nz"]:
                got[(i, j)] = complex(a, b)
        if lo != recs[0]["rows"] or len({(r["rows"], r["cols"]) for r in recs}) != 1:
            self.v("row-ranges", case, "%s: %d rows held, dimensions reported %s" % (what, lo, sorted({(r["rows"], r["cols"]) for r in recs})), job)
        return got, recs[0]["rows"], recs[0]["cols"]

    def indices(self, case, net, idx, job):
        """objects' owner records of an idx dump: {(kind, tag): (rank, record)}; copies must agree"""
        own = {}
        for r in idx:
            for k, l in ((0, r["b"]), (1, r["l"])):
                for x in l:
                    if x[1]:
                        own[(k, x[0])] = (r["me"], x)
        return own

    def numbering(self, case, own, idx, col, size, what, job, ghosts=True):
        """the indices in column `col` of all owned objects are a permutation of 0..n-1 and every copy has its owner's"""
        allx = sorted(i for (k, t), (r, x) in own.items() for i in x[col])
        if allx != list(range(len(allx))):
            self.v("indices-not-permutation", case, "%s indices are not 0..n-1: %s" % (what, allx[:40]), job)
            return False
        for (k, t), (r, x) in own.items():
            if len(x[col]) != size(k, t):
                raise HarnessError("size of %s %s" % (k, t))
        if ghosts:
            for r in idx:
                for k, l in ((0, r["b"]), (1, r["l"])):
                    for x in l:
                        if x[col] != own[(k, x[0])][1][col]:
                            self.v("ghost-indices", case, "%s: process %d has %s indices %s for %s %d, its owner %s" % (what, r["me"], what, x[col], "bus branch".split()[k], x[0], own[(k, x[0])][1][col]), job)
                            return False
        return True
