from vlib.parcheck import *


class P06(ParCheck):
    id = "P06"
    mode = "comm"
    split = True
    rule = ("a case is a sequence of divisions, splits, copies, self-communicators and returns to the parent starting from a communicator of 1..8 "
            "processes; at each step membership, rank order, the matching array-library group, sums, maxima, minima and any/all of random data in all "
            "types are compared with the members' own data; distinct by (seed, plan)")
    plan = {"quick": [(1, 5), (2, 30), (3, 30), (4, 30), (5, 20), (6, 20), (7, 20), (8, 24)],
            "thorough": [(1, 30), (2, 200), (3, 200), (4, 300), (5, 300), (6, 300), (7, 300), (8, 400)]}

    def common(self, r):
        return {"plan": "".join(r.choice("ddddsrmpua") + str(r.randint(1, 9)) for _ in range(r.randint(1, 5)))}

    def judge(self, job, res):
        for case, color, g, seqs in self.groups(job, res):
            plan = g.par["plan"]
            cur = {q[0]["me"]: tuple(q[0]["members"]) for q in seqs}
            wme = {q[0]["me"]: q[0]["wme"] for q in seqs}
            stack = {m: [cur[m]] for m in cur}
            for s in range(len(seqs[0])):
                for q in seqs:
                    x = q[s]
                    self.stat("communicators_checked")
                    if x["bad"]:
                        self.v("reduction" if " " in x["what"] and "group" not in x["what"] else "identity", case, "process %d, after %s of %s: %s" % (x["me"], x["stage"], plan, x["what"]), job)
                if not s:
                    continue
                op, d = plan[2 * s - 2], int(plan[2 * s - 1])
                for q in seqs:
                    x = q[s]
                    m = x["me"]
                    par = stack[m][-1]
                    new = tuple(x["members"])
                    if op in "dsrp":
                        r = par.index(wme[m])
                        if op == "d":
                            ok = len(new) <= d and wme[m] in new and new == par[par.index(new[0]):par.index(new[0]) + len(new)]
                        elif op == "s":
                            ok = new == tuple(w for i, w in enumerate(par) if i % d == r % d)
                        elif op == "r":
                            ok = new == tuple(w for i, w in enumerate(par) if i // d == r // d)
                        else:
                            ok = new == (wme[m],)
                        stack[m].append(new)
                    elif op == "u":
                        if len(stack[m]) > 1:
                            stack[m].pop()
                        ok = new == stack[m][-1]
                    else:
                        ok = new == par
                        stack[m].append(new)
                    if not ok:
                        self.v("membership", case, "process %d: after %s%d of %s the members are %s, out of %s" % (m, op, d, plan, new, par), job)
                if op == "d":
                    # number of parts: no more than needed
                    for par in {stack[m][-2] for m in stack}:
                        parts = {stack[m][-1] for m in stack if stack[m][-2] == par}
                        if len(parts) != -(-len(par) // d):
                            self.v("division-parts", case, "dividing %d processes by %d made %d parts" % (len(par), d, len(parts)), job)
            self.ok((plan, len(seqs), g.seed) if len(seqs) > 1 else None, {"plan": plan, "processes": len(seqs)})
