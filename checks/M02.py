from vlib.mapcheck import *


class M02(MapCheck):
    id = "M02"
    mode = "bvec"
    maxn = 80
    plan = {"quick": [(1, 10), (2, 30), (3, 30), (4, 30), (6, 16), (8, 10)],
            "thorough": [(1, 80), (2, 400), (3, 400), (4, 400), (5, 200), (6, 200), (7, 150), (8, 200)]}
    rule = ("a case is one partitioned random network whose buses contribute 0..3 values and a random sequence of map, reset, scale and push-back operations on complex and "
            "real vectors; every vector element and every value a bus receives is compared with the reference; distinct by (network, plan, processes)")
    assumptions = ["vectorValues answers true exactly when vectorSize does", "at least three buses per process"]

    def params(self, net, np):
        r = self.rng
        net.par["fix"] = r.choice([0, 0, 0, 1, 2])
        s = r.choice("nnf") + r.choice(["", "r"])
        for _ in range(r.randint(2, 7)):
            s += r.choice("zzsbbN" + ("ytcc" if "r" in s else "r"))
        net.par["plan"] = s

    def judge(self, job, res):
        for case, color, net, seqs in self.groups(job, res):
            R = Ref(net)
            np = len(seqs)
            steps = list(zip(*seqs))
            own = self.indices(case, net, steps[0], job)
            # the layout: process by process, the owned contributing buses in local order
            pos, loc, n, per = {}, {}, 0, []
            for r in steps[0]:
                k = 0
                for x in r["b"]:
                    if x[1] and R.contrib(x[0]):
                        pos[x[0]] = n
                        loc[x[0]] = k
                        k += R.I(x[0])
                        n += R.I(x[0])
                per.append(k)
            # matrices and vectors of one network must line up: bus order is the matrix order
            if sorted(pos, key=lambda o: pos[o]) != [o for _, o in sorted((own[(0, o)][1][2], o) for o in pos)]:
                self.v("order", case, "the vector's bus order differs from the matrix order", job)
            state = {}
            for recs in steps[1:]:
                op, s = recs[0]["op"], recs[0]["step"]
                what = "step %d (%s) of %s, %d buses on %d processes" % (s, op, net.par["plan"], len(net.buses), np)
                real = op in "rytc"
                if op in "nfrzy":
                    state[real] = {pos[o] + i: R.val(s, 4, o, i, 0, real) for o in pos for i in range(R.I(o))}
                elif op == "s":
                    state[False] = {i: v * complex(2, 1) for i, v in state[False].items()}
                elif op == "t":
                    state[True] = {i: v * -3.0 for i, v in state[True].items()}
                cur = state[real]
                if recs[0]["t"] == "vec":
                    got = {}
                    for r in recs:
                        for i, z in enumerate(r["v"]):
                            got[r["lo"] + i] = complex(*z)
                        if r["n"] != n:
                            self.v("length", case, "%s: vector of length %d, the buses contribute %d values" % (what, r["n"], n), job)
                    if [r["hi"] - r["lo"] for r in recs] != per:
                        self.v("ownership", case, "%s: elements per process %s, expected %s" % (what, [r["hi"] - r["lo"] for r in recs], per), job)
                    self.diff(case, "vector", got, cur, what, job)
                    self.stat("vectors_compared")
                else:
                    for r in recs:
                        for x in r["got"]:
                            o, off, size, vals = x[0], x[1], x[2], [complex(*z) for z in x[3:]]
                            act = own[(0, o)][0] == r["me"]
                            if act and o in pos:
                                want = [cur[pos[o] + i] for i in range(R.I(o))]
                                wo = (loc[o], R.I(o))
                            else:
                                want, wo = [], (-1, 0)
                            if len(vals) != len(want) or not all(map(close, vals, want)):
                                self.v("push-back", case, "%s: bus %d on process %d received %s, expected %s" % (what, o, r["me"], vals, want), job)
                            if (off, size) != wo:
                                self.v("local-offset", case, "%s: bus %d on process %d reports offset %s, expected %s" % (what, o, r["me"], (off, size), wo), job)
                    self.stat("push_backs")
                self.stat("elements_compared", len(cur))
            self.ok((net.seed, net.par["plan"], np), {"kind": net.kind, "buses": len(net.buses), "processes": np, "plan": net.par["plan"], "length": n})
