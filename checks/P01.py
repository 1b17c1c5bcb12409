from vlib.parcheck import *
from collections import Counter


class P01(ParCheck):
    id = "P01"
    mode = "hash"
    rule = ("a case is one map on a communicator of 1..8 processes (world or simultaneous sub-communicators) and a random sequence of additions and "
            "look-ups of single and paired integer keys (dense, sparse, negative and full 32-bit ranges, with repeats, with ranks or whole calls "
            "contributing nothing), with random pauses injected before calls into the array library; the multiset returned to each process is compared "
            "with the reference map; distinct by (seed, plan) with at least one match found")
    assumptions = ["an addition replaces what the map held for that kind of key, as the code does"]

    def params(self, np, r):
        plan = "".join(r.choice(["A", "a", "AQ", "aq", "QA", "Aa", "Qq", "N", "n", "E", "e", "Q", "q"]) for _ in range(r.randint(1, 4)))
        return {"kind": r.randrange(5), "maxn": r.choice([3, 10, 40, 120]), "sparse": r.randrange(2), "plan": "Aa" + plan + "Qq"}

    def judge(self, job, res):
        for case, color, g, seqs in self.groups(job, res):
            cur = {"A": Counter(), "a": Counter()}
            hits = 0
            for s in range(len(seqs[0])):
                recs = [q[s] for q in seqs]
                op = recs[0]["op"]
                kind = "A" if op in "AEQN" else "a"
                T = (lambda k: k) if kind == "A" else tuple
                if op in "AaEe":
                    m = {}
                    for x in recs:
                        for k, v in x["in"]:
                            m.setdefault(T(k), []).append(v)
                            self.stat("pairs_added")
                    cur[kind] = m
                else:
                    for x in recs:
                        want = Counter()
                        for k in x["in"]:
                            for v in cur[kind].get(T(k), []):
                                want[(T(k), v)] += 1
                        self.stat("keys_asked", len(x["in"]))
                        if not sum(len(y["in"]) for y in recs):
                            # nobody asked for anything
                            if x["ov"]:
                                self.v("values-for-no-keys", case, "process %d of %d: %s values came back for an empty request (step %d of %s)" % (x["me"], len(recs), len(x["ov"]), s, g.par["plan"]), job)
                            continue
                        got = Counter(zip(map(T, x["ok"]), x["ov"]))
                        hits += sum(want.values())
                        self.stat("values_returned", sum(got.values()))
                        if len(x["ok"]) != len(x["ov"]) or got != want:
                            a, b = want - got, got - want
                            self.v("lookup-wrong", case, "process %d of %d, step %d (%s) of plan %s: missing %s, unexpected %s, lengths %d/%d" % (
                                x["me"], len(recs), s, op, g.par["plan"], list(a.items())[:4], list(b.items())[:4], len(x["ok"]), len(x["ov"])), job)
            self.ok((g.seed, g.par["plan"]) if hits else None, {"par": g.par, "processes": len(seqs), "values": hits})
