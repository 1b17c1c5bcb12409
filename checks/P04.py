from vlib.parcheck import *
from collections import Counter


class P04(ParCheck):
    id = "P04"
    mode = "tasks"
    rule = ("a case is one task manager on 1..8 processes, reset one to four times with 0..60 tasks, drained by single processes or by groups of "
            "processes, with random task durations, injected pauses and sometimes a cancellation; every task index must be handed out exactly once "
            "per round (at most once after a cancellation), groups must agree, everyone must end with no task; distinct by seed with two or more "
            "takers sharing the work")

    def params(self, np, r):
        return {"rounds": r.randint(1, 4), "us": r.choice([0, 50, 300]), "ntasks": r.choice([4, 20, 60]), "gsize": r.randint(1, max(1, np)),
                "cancel": int(r.random() < 0.3)}

    def common(self, r):
        return {"sub": r.choice([0, 0, 1, 2])}

    def judge(self, job, res):
        for case, color, g, seqs in self.groups(job, res):
            shared = 0
            for s in range(len(seqs[0])):
                recs = [q[s] for q in seqs]
                nt = recs[0]["nt"]
                where = "round %d, %d tasks, %d processes, %s" % (s, nt, len(recs), g.par)
                takers = recs
                if g.par["sub"]:
                    lead = {}
                    for x in recs:
                        lead.setdefault(x["leader"], []).append(x)
                    for l, m in lead.items():
                        if any(x["got"] != m[0]["got"] for x in m):
                            self.v("group-disagrees", case, "%s: members of one group were given different tasks: %s" % (where, [x["got"][:10] for x in m]), job)
                    takers = [m[0] for m in lead.values()]
                c = Counter(t for x in takers for t in x["got"])
                dup = [t for t, n in c.items() if n > 1]
                out = [t for t in c if not 0 <= t < nt]
                miss = [t for t in range(nt) if t not in c]
                canc = [x for x in recs if x["cancelled"] >= 0]
                if dup:
                    self.v("task-twice", case, "%s: tasks %s were handed out more than once" % (where, dup[:10]), job)
                if out:
                    self.v("task-out-of-range", case, "%s: tasks %s" % (where, out[:10]), job)
                if miss and not canc:
                    self.v("task-lost", case, "%s: tasks %s were never handed out" % (where, miss[:10]), job)
                for x in canc:
                    if len(x["got"]) > x["cancelled"]:
                        self.v("task-after-cancel", case, "%s: process %d was given %d more tasks after it cancelled" % (where, x["me"], len(x["got"]) - x["cancelled"]), job)
                for x in recs:
                    if any(a >= b for a, b in zip(x["got"], x["got"][1:])):
                        self.v("task-order", case, "%s: process %d received %s" % (where, x["me"], x["got"][:20]), job)
                    if x["end"] != -1:
                        self.v("end-marker", case, "%s: process %d ended with %d" % (where, x["me"], x["end"]), job)
                self.stat("tasks_handed_out", sum(c.values()))
                self.stat("rounds_judged")
                self.stat("rounds_cancelled", 1 if canc else 0)
                shared += sum(1 for x in takers if x["got"]) > 1
            self.ok((g.seed, job.env.get("VH_DELAY")) if shared else None, {"par": g.par, "processes": len(seqs), "delay": job.env.get("VH_DELAY")})
