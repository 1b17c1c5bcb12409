from vlib.netcheck import *


class B02(NetCheck):
    id = "B02"
    mode = "btab"
    plan = {"quick": [(1, 8), (2, 30), (3, 30), (4, 24), (6, 12), (8, 10)],
            "thorough": [(1, 60), (2, 400), (3, 400), (4, 400), (6, 200), (8, 200)]}
    rule = ("a case is one random network with one to three bus tables read one after the other (leading comment lines, 1..12 columns, several devices per bus, buses without rows, rows of buses that are not there, "
            "quoted tags, any order, 1..150 rows, missing files in between); on every process the rows, tags, values of every column and comments obtained are compared with the file; "
            "distinct by network and tables")
    assumptions = ["columns are separated by blanks and comment lines stand at the top", "at least three buses per process"]

    def table(self, net):
        r = self.rng
        nc = r.choice([1, 1, 2, 3, 7, 12])
        hd = []
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            hd.append(r.choice(["a comment", "x", "Values: 1 2 3 4 " * r.choice([1, 8]), "name_of_the_table"]).strip())
        buses = [b[0] for b in net.buses]
        n = r.choice([1, 9, 10, 11, 20, 150, r.randint(1, 40)])
        rows, seen = [], set()
        for _ in range(n):
            o = 1000000 + r.randrange(5) if r.random() < .05 else r.choice(buses)
            tag = r.choice(["1", "2", "A", "b", "G1", "12", "Z9", "&1"])
            if (o, tag) in seen:
                continue
            seen.add((o, tag))
            rows.append((o, tag, [round(r.uniform(-1e3, 1e3), r.randint(0, 9)) if r.random() < .9 else 10.0 ** r.randint(-20, 20) for _ in range(nc)]))
        text = "".join("#%s%s\n" % (r.choice(["", " ", "  "]), h) for h in hd)
        sp = lambda: " " * r.choice([1, 1, 2, 5])
        for o, tag, v in rows:
            text += r.choice(["", "", "  "]) + str(o) + sp() + r.choice([tag, "'" + tag + "'"]) + "".join(sp() + repr(x) for x in v) + r.choice(["", "", "  ", "\r"]) + "\n"
        return text, hd, nc, rows

    def params(self, net, np):
        r = self.rng
        net.par["part"] = r.choice([1, 1, 1, 1, 0])
        net.par["reads"] = r.choice([1, 1, 2, 3])
        net.par["table"] = "t%x" % r.getrandbits(60)
        net.tabs = [None if r.random() < .1 else self.table(net) for _ in range(net.par["reads"])]

    def jobs(self):
        for job in super().jobs():
            for t, nets, k, style in job.cases.values():
                for net in nets:
                    for s, tab in enumerate(net.tabs):
                        if tab:
                            job.cwd_files["%s.%d" % (net.par["table"], s)] = tab[0]
            yield job

    def case_text(self, job, case):
        t = super().case_text(job, case)
        if case in job.cases:
            for net in job.cases[case][1]:
                for s, tab in enumerate(net.tabs):
                    t += "--- table %s.%d\n%s" % (net.par["table"], s, tab[0] if tab else "(not written)\n")
        return t

    def judge(self, job, res):
        for case, color, net, seqs in self.groups(job, res):
            good = True
            for s, tab in enumerate(net.tabs):
                for q in seqs:
                    x = q[s]
                    m = self.wrong(x, tab)
                    if m:
                        good = False
                        self.v(m[0], case, "table %d, process %d of %d: %s" % (s, x["me"], len(seqs), m[1]), job)
                        break
                if tab and good:
                    self.stat("rows", len(tab[3]))
                    self.stat("values_delivered", sum(len(q[s]["idx"]) * q[s]["nc"] for q in seqs))
            if good:
                self.ok((net.seed, net.par["table"]) if len(seqs) > 1 else None, {"tables": len(net.tabs), "processes": len(seqs)})

    @staticmethod
    def wrong(x, tab):
        if tab is None:
            return ("missing", "a missing file was reported as read") if x["r"] else None
        text, hd, nc, rows = tab
        if not x["r"]:
            return "read", "the table was not read"
        if x["nc"] != nc:
            return "columns", "%d columns, must be %d" % (x["nc"], nc)
        if x["hd"] != hd:
            return "comments", "comments are %r, must be %r" % (x["hd"], hd)
        if len(x["tags"]) != len(x["idx"]) or any(len(v) != len(x["idx"]) for v in x["vals"]):
            return "lengths", "lists of different lengths"
        if any(not 0 <= i < len(x["lb"]) for i in x["idx"]):
            return "index", "local index outside the process's buses"
        have = {o for o in x["lb"]}
        got = sorted((x["lb"][i], t.strip(), [v[k] for v in x["vals"]]) for k, (i, t) in enumerate(zip(x["idx"], x["tags"])))
        want = sorted((o, t, v) for o, t, v in rows if o in have)
        if got != want:
            d = [w for w in want if w not in got][:2]
            e = [g for g in got if g not in want][:2]
            return "rows", "%d rows obtained, must be %d; missing %s, extra %s" % (len(got), len(want), d, e)


if __name__ == "__main__":
    B02().main()
