from vlib.mapcheck import *


class M01(MapCheck):
    id = "M01"
    mode = "full"
    plan = {"quick": [(1, 10), (2, 30), (3, 30), (4, 30), (6, 16), (8, 10)],
            "thorough": [(1, 80), (2, 400), (3, 400), (4, 400), (5, 200), (6, 200), (7, 150), (8, 200)]}
    rule = ("a case is one partitioned random network whose buses contribute blocks of random shape (1..3 by 1..3, some buses and directions contribute "
            "nothing) and a random sequence of map (sparse, dense, real), reset, overwrite and increment operations with components that answer partially; every "
            "element of every resulting matrix is compared with a dense reference; distinct by (network, plan, processes)")
    assumptions = ["a branch contributes a block only when both its buses contribute, with the shape their blocks imply", "no parallel branches between one pair of buses",
                   "overwrite, increment and reset touch only elements of the original pattern", "at least three buses per process"]

    def params(self, net, np):
        r = self.rng
        net.par["sq"] = r.randrange(2)
        net.par["fix"] = r.choice([0, 0, 0, 1, 2])
        s = r.choice("nndf") + r.choice(["", "r", "R"])
        for _ in range(r.randint(1, 5)):
            s += r.choice("zZoiiondNN" + ("yyrR" if "r" in s.lower() else "r"))
        s += r.choice(["", "k"])
        net.par["plan"] = s

    def judge(self, job, res):
        for case, color, net, seqs in self.groups(job, res):
            R = Ref(net)
            np = len(seqs)
            steps = list(zip(*seqs))
            idx = steps[0]
            own = self.indices(case, net, idx, job)
            order = sorted((x[2], o) for (k, o), (r, x) in own.items() if k == 0)
            if [m for m, _ in order] != list(range(len(net.buses))):
                self.v("bus-order", case, "matrix positions of the buses are %s" % [m for m, _ in order][:40], job)
                continue
            ro, co, a, b = {}, {}, 0, 0
            rank_rows = [0] * np
            for _, o in order:
                ro[o], co[o] = a, b
                if R.contrib(o):
                    a += R.I(o)
                    b += R.J(o)
                    rank_rows[own[(0, o)][0]] += R.I(o)
            state = {}
            nblk = 0
            for recs in steps[1:]:
                if recs[0]["t"] == "chk":
                    if not all(r["ok"] for r in recs):
                        self.v("check-wrong", case, "check() reports inconsistent block sizes on processes %s" % [r["me"] for r in recs if not r["ok"]], job)
                    continue
                op, s = recs[0]["op"], recs[0]["step"]
                what = "step %d (%s) of %s, %d buses on %d processes" % (s, op, net.par["plan"], len(net.buses), np)
                real = op in "rRy"
                part = op in "zZyoi"
                cur = {} if op not in "oi" else dict(state[False])
                for kind, i_d, rb, cb in R.blocks():
                    if not R.answers(s, kind, i_d, part):
                        continue
                    nblk += 1
                    for j in range(R.J(cb)):
                        for i in range(R.I(rb)):
                            v = R.val(s, kind, i_d, i, j, real)
                            p = (ro[rb] + i, co[cb] + j)
                            cur[p] = cur.get(p, 0j) + v if op == "i" else v
                state[real] = cur
                got, nr, nc = self.gather(case, recs, job, what)
                if (nr, nc) != (a, b):
                    self.v("dimensions", case, "%s: matrix is %dx%d, the contributing blocks add up to %dx%d" % (what, nr, nc, a, b), job)
                if [r["hi"] - r["lo"] for r in recs] != rank_rows:
                    self.v("row-ownership", case, "%s: rows per process %s, the owned buses contribute %s" % (what, [r["hi"] - r["lo"] for r in recs], rank_rows), job)
                self.diff(case, "matrix", got, cur, what, job)
                self.stat("matrices_compared")
                self.stat("elements_compared", len(cur))
            self.stat("blocks", nblk)
            self.ok((net.seed, net.par["plan"], np) if len(net.branches) > 1 else None,
                    {"kind": net.kind, "buses": len(net.buses), "processes": np, "plan": net.par["plan"], "shape": [a, b]})
