from vlib.parcheck import *
from collections import Counter


class P03(ParCheck):
    id = "P03"
    mode = "shuffle"
    rule = ("a case is a random set of serialisable things on 1..8 processes moved one to three times with random, converging, rotating or identity "
            "destinations, by either of the two redistribution services; after every move each process must hold exactly the things sent to it, intact; "
            "distinct by seed and pattern with at least one thing moved between processes")

    def params(self, np, r):
        return {"maxn": r.choice([0, 1, 5, 30, 90]), "sparse": r.randrange(2), "rounds": r.randint(1, 3), "pattern": r.randrange(5), "ga": int(r.random() < 0.35),
                "onlyone": r.randrange(np) if r.random() < 0.2 else -1}

    def judge(self, job, res):
        for case, color, g, seqs in self.groups(job, res):
            moved = 0
            for s in range(len(seqs[0])):
                recs = [q[s] for q in seqs]
                want = [Counter() for _ in recs]
                for x in recs:
                    for i, d in zip(x["ids"], x["dest"]):
                        want[d][i] += 1
                        moved += d != x["me"]
                for x in recs:
                    got = Counter(x["got"])
                    self.stat("things_delivered", sum(got.values()))
                    if got != want[x["me"]]:
                        a, b = want[x["me"]] - got, got - want[x["me"]]
                        self.v("delivery", case, "process %d of %d, move %d: lost %s, unexpected %s" % (x["me"], len(recs), s, list(a.items())[:6], list(b.items())[:6]), job)
                    if x["bad"]:
                        self.v("altered", case, "process %d of %d, move %d: %d things arrived altered" % (x["me"], len(recs), s, x["bad"]), job)
            self.ok((g.seed, str(g.par)) if moved else None, {"par": g.par, "processes": len(seqs), "moved": moved})
