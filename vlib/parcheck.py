"""Common shape of the checks that drive vh_par."""
from .core import *
from . import netgen


class ParCheck(Check):
    targets = ("vh_par",)
    exe = "vh/vh_par"
    mode = "hash"
    plan = {"quick": [(1, 10), (2, 40), (3, 40), (4, 40), (6, 24), (8, 24)],
            "thorough": [(1, 60), (2, 500), (3, 500), (4, 500), (5, 400), (6, 300), (7, 200), (8, 400)]}
    split = True
    chunk = 20
    # (permille, max microseconds): how calls into the array library are delayed
    delays = [None, (60, 300), (300, 120), (20, 3000)]

    def params(self, np, rng):
        return {}

    def common(self, rng):
        """parameters all simultaneous groups share: making a communicator is documented to
        involve every process of the world, so groups make theirs in step"""
        return {}

    def jobs(self):
        r = self.rng
        for np, cnt in self.plan[TIER]:
            for ci, c0 in enumerate(range(0, cnt, self.chunk)):
                text, cases = "", {}
                for i in range(c0, min(cnt, c0 + self.chunk)):
                    cid = "p%d.%d" % (np, i)
                    k, style = 1, r.randrange(2)
                    if self.split and np >= 4 and r.random() < 0.4:
                        k = r.choice([2, 2, 3])
                    grp, com = [], self.common(r)
                    for sz in netgen.color_sizes(np, k, style):
                        g = netgen.Net()
                        g.seed = r.randrange(1, 1 << 40)
                        g.size = sz
                        g.par = dict(self.params(sz, r), **com)
                        grp.append(g)
                    t = netgen.case_text(cid, grp, {"style": style})
                    cases[cid] = (t, grp)
                    text += t
                env = {}
                d = self.delays[ci % len(self.delays)] if TIER == "quick" and cnt > 2 * self.chunk else r.choice(self.delays)
                if d and np > 1:
                    slow = r.randrange(np) if r.random() < 0.4 else -1
                    env["VH_DELAY"] = "%d %d %d %d" % (d[0], d[1], r.randrange(1, 10**6), slow)
                yield Job("%s#%d" % (self.mode, np), self.exe, [self.mode, "@D/cases.txt", "@D/out"], np, cases=cases, text=text, env=env)

    def case_text(self, job, case):
        c = job.cases.get(case)
        return "environment %s\n%s" % (job.env, c[0]) if c else job.text

    def groups(self, job, res):
        """(case, color, parameters, {rank in group: [records]})"""
        by = {}
        for r, recs in enumerate(res.ranks):
            for x in recs:
                if x.get("t") == "viol":
                    self.v(x["key"], x["case"], x["msg"], job)
                elif x.get("t") == "finished":
                    self.stat("injected_delays", x.get("delays", 0))
                if "color" in x:
                    by.setdefault((x["case"], x["color"]), {}).setdefault(x["me"], []).append(x)
        for (case, color), ranks in sorted(by.items()):
            g = job.cases[case][1][color]
            yield case, color, g, [ranks[m] for m in sorted(ranks)]
