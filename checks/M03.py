from vlib.mapcheck import *


class M03(MapCheck):
    id = "M03"
    mode = "gmat"
    plan = {"quick": [(1, 8), (2, 20), (3, 20), (4, 20), (6, 10), (8, 8)],
            "thorough": [(1, 60), (2, 250), (3, 250), (4, 250), (5, 150), (6, 150), (7, 100), (8, 150)]}
    rule = ("a case is one partitioned random network whose buses and branches own 0..3 rows, columns, vector elements and slab rows each, and a random sequence of map, reset, "
            "overwrite, increment, scale and push-back operations on the generalised matrix, vector or slab; the assigned indices, every element and every value pushed back are "
            "compared with the reference; distinct by (network, kind of map, plan, processes)")
    assumptions = ["a component contributes elements in rows it owns", "at least three buses per process", "all components agree on the number of slab columns"]

    def jobs(self):
        for m in ("gmat", "gvec", "slab"):
            self.mode = m
            for j in super().jobs():
                yield j

    def params(self, net, np):
        r = self.rng
        m = self.mode
        s = r.choice("nf")
        for _ in range(r.randint(1, 5)):
            s += r.choice({"gmat": "zoinoi", "gvec": "zsbbn", "slab": "zsbbn"}[m])
        net.par["plan"] = s
        if m == "slab":
            net.par["nsl"] = r.choice([1, 2, 3, 5, 9])
        if m != "gvec" and r.random() < 0.15:
            net.par["lowid"] = r.choice(net.buses)[0]

    def judge(self, job, res):
        m = job.name.split("#")[0]
        for case, color, net, seqs in self.groups(job, res):
            R = Ref(net)
            np = len(seqs)
            steps = list(zip(*seqs))
            idx = steps[0]
            own = self.indices(case, net, idx, job)
            ok = True
            if m == "gmat":
                ok = self.numbering(case, own, idx, 3, R.gR, "row", job) and self.numbering(case, own, idx, 4, R.gC, "column", job)
                rc = 3
            elif m == "gvec":
                ok = self.numbering(case, own, idx, 5, R.gV, "element", job)
                rc = 5
            else:
                ok = self.numbering(case, own, idx, 6, R.gS, "slab row", job)
                rc = 6
            if not ok:
                continue
            if any(r["badcall"] for recs in steps[1:] for r in recs if "badcall" in r):
                pass
            per = [0] * np
            for (k, t), (r, x) in own.items():
                per[r] += len(x[rc])
            # rows of a process are contiguous
            base = [sum(per[:r]) for r in range(np)]
            for (k, t), (r, x) in own.items():
                if any(not base[r] <= i < base[r] + per[r] for i in x[rc]):
                    self.v("row-ownership", case, "%s %d of process %d got rows %s outside %d..%d" % ("bus branch".split()[k], t, r, x[rc], base[r], base[r] + per[r] - 1), job)
            nrow = sum(per)
            ncol = sum(len(x[4]) for _, x in own.values())
            ix = lambda k, t, c: own[(k, t)][1][c]
            cur = {}
            for recs in steps[1:]:
                op, s = recs[0]["op"], recs[0]["step"]
                what = "%s step %d (%s) of %s, %d buses on %d processes" % (m, s, op, net.par["plan"], len(net.buses), np)
                if m == "gmat":
                    if op not in "oi":
                        cur = {}
                    for k, t, i, ok_, ot, j, v in R.entries(s, op in "zoi"):
                        p = (ix(k, t, 3)[i], ix(ok_, ot, 4)[j])
                        cur[p] = cur.get(p, 0j) + v if op == "i" else v
                elif op in "nfz":
                    if m == "gvec":
                        cur = {(x[5][i], 0): R.val(s, 80 + k, t, i, 0, False) for (k, t), (r, x) in own.items() for i in range(len(x[5]))}
                    else:
                        cur = {(x[6][i], c): R.val(s, 90 + k, t, i, c, False) for (k, t), (r, x) in own.items() for i in range(len(x[6])) for c in range(R.nsl)}
                elif op == "s":
                    cur = {p: v * complex(2, 1) for p, v in cur.items()}
                if recs[0]["t"] == "mat":
                    got, nr, nc = self.gather(case, recs, job, what)
                    want = (nrow, ncol if m == "gmat" else R.nsl)
                    if (nr, nc) != want:
                        self.v("dimensions", case, "%s: %dx%d, expected %s" % (what, nr, nc, want), job)
                    if [r["hi"] - r["lo"] for r in recs] != per:
                        self.v("row-ranges", case, "%s: rows per process %s, expected %s" % (what, [r["hi"] - r["lo"] for r in recs], per), job)
                    self.diff(case, m, got, cur, what, job)
                    self.stat("matrices_compared")
                elif recs[0]["t"] == "vec":
                    got = {}
                    for r in recs:
                        for i, z in enumerate(r["v"]):
                            got[(r["lo"] + i, 0)] = complex(*z)
                        if r["badcall"]:
                            self.v("component-call", case, "%s: the mapper asked a component for %s" % (what, r["badcall"]), job)
                    if recs[0]["n"] != nrow or [r["hi"] - r["lo"] for r in recs] != per:
                        self.v("dimensions", case, "%s: length %d, per process %s, expected %d, %s" % (what, recs[0]["n"], [r["hi"] - r["lo"] for r in recs], nrow, per), job)
                    self.diff(case, m, got, cur, what, job)
                    self.stat("vectors_compared")
                else:
                    for r in recs:
                        for k, t, act, vals in r["got"]:
                            vals = [complex(*z) for z in vals]
                            want = []
                            if act:
                                w = 1 if m == "gvec" else R.nsl
                                want = [cur[(i, c)] for i in ix(k, t, rc) for c in range(w)]
                            if len(vals) != len(want) or not all(map(close, vals, want)):
                                self.v("push-back", case, "%s: %s %d on process %d received %s, expected %s" % (what, "bus branch".split()[k], t, r["me"], vals[:8], want[:8]), job)
                    self.stat("push_backs")
                self.stat("elements_compared", len(cur))
            self.ok((net.seed, m, net.par["plan"], np), {"map": m, "buses": len(net.buses), "branches": len(net.branches), "processes": np, "plan": net.par["plan"], "rows": nrow})
