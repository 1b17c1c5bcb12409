from vlib.netcheck import *
from collections import Counter


class P02(NetCheck):
    id = "P02"
    mode = "hdist"
    dup = 0.3
    plan = {"quick": [(1, 8), (2, 40), (3, 40), (4, 40), (6, 16), (8, 12)],
            "thorough": [(1, 40), (2, 400), (3, 400), (4, 400), (5, 300), (6, 200), (7, 150), (8, 250)]}
    rule = ("a case is one network, partitioned or as first placed, over which random records keyed by original bus or branch identifiers (repeated keys, keys of "
            "other processes, identifiers that do not exist, processes and whole calls with nothing to send) are distributed as structures or as arrays of values; "
            "each process must end with exactly the pairs (local index, record) of every local copy of the record's bus or branch; distinct by (network, plan) "
            "with records delivered to two or more processes")
    assumptions = ["a branch record is keyed by the end points in the order in which the network stores them"]

    def params(self, net, np):
        r = self.rng
        net.par.update(part=int(r.random() < 0.8), maxn=r.choice([1, 4, 25, 60]), sparse=r.randrange(2), nvals=r.choice([1, 2, 3, 5]), unknown=r.choice([0, 0, 20]),
                       plan="".join(r.choice("blBLnN") for _ in range(r.randint(2, 6))))

    def mknet(self, np):
        n = super().mknet(np)
        return n if n.branches else self.mknet(np)

    def judge(self, job, res):
        for case, color, net, seqs in self.groups(job, res):
            multi = 0
            for s in range(len(seqs[0])):
                recs = [q[s] for q in seqs]
                op = recs[0]["op"]
                bus = op in "bBn"
                sent = [((k,) if bus else tuple(k), i) for x in recs for k, i in zip(x["kb" if bus else "kl"], x["ids"])]
                hit = 0
                for x in recs:
                    loc = {}
                    for i, k in enumerate(x["lb"] if bus else x["ll"]):
                        loc.setdefault((k,) if bus else tuple(k), []).append(i)
                    want = Counter((i, v) for k, v in sent for i in loc.get(k, []))
                    got = Counter(zip(x["where"], x["got"]))
                    where = "process %d of %d, step %d (%s) of %s, %s n=%d" % (x["me"], len(recs), s, op, net.par["plan"], net.kind, len(net.buses))
                    if len(x["where"]) != len(x["got"]):
                        self.v("lengths", case, "%s: %d indices and %d records" % (where, len(x["where"]), len(x["got"])), job)
                    elif got != want:
                        a, b = want - got, got - want
                        self.v("delivery", case, "%s: missing (local index, record) %s, unexpected %s" % (where, list(a.items())[:5], list(b.items())[:5]), job)
                    if x["bad"]:
                        self.v("record-altered", case, "%s: %d values changed on the way" % (where, x["bad"]), job)
                    self.stat("records_delivered", sum(got.values()))
                    hit += bool(want)
                multi += hit > 1
                self.stat("distributions_judged")
            self.ok((net.seed, net.par["plan"]) if multi or len(seqs) == 1 else None, {"kind": net.kind, "par": net.par, "processes": len(seqs)})
