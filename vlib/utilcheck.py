"""Common shape of the checks that drive vh_util."""
from .core import *


def esc(t):
    if t == "":
        return "%"
    return "".join(c if 33 <= ord(c) < 127 and c != "%" else "%%%02x" % ord(c) for c in t)


def line(*t):
    return " ".join(esc(str(x)) for x in t) + "\n"


class UtilCheck(Check):
    targets = ("vh_util",)
    exe = "vh/vh_util"
    kind = "dc"
    plan = {"quick": [(1, 100)], "thorough": [(1, 1000)]}
    chunk = 60
    timeout = 240

    def gen(self, cid, np, files):
        """returns (operation lines, expectation)"""
        raise NotImplementedError

    def jobs(self):
        for np, cnt in self.plan[TIER]:
            for c0 in range(0, cnt, self.chunk):
                text, cases, files = "", {}, {}
                for i in range(c0, min(cnt, c0 + self.chunk)):
                    cid = "%s%d.%d" % (self.kind, np, i)
                    ops, exp = self.gen(cid, np, files)
                    t = line("case", cid, self.kind) + "".join(ops)
                    cases[cid] = (t, exp, ops)
                    text += t
                files["cases2.txt"] = text
                yield Job("%s#%d" % (self.kind, np), self.exe, ["@D/cases2.txt", "@D/out"], np, cases=cases, text="", cwd_files=files, timeout=self.timeout)

    def case_text(self, job, case):
        c = job.cases.get(case)
        t = c[0] if c else job.cwd_files["cases2.txt"]
        if c:
            for f, b in job.cwd_files.items():
                if f.startswith(str(case) + "_") or f.startswith(str(case) + "."):
                    t += "--- file %s\n%s\n" % (f, b if isinstance(b, str) else b.decode("latin1"))
        return t

    def logs(self, job, res):
        """yield (case, expectation, ops, [records by rank])"""
        by = {}
        for r, recs in enumerate(res.ranks):
            for x in recs:
                if x.get("t") == "viol":
                    self.v(x["key"], x["case"], x["msg"], job)
                elif "n" in x or x.get("t") == "stat":
                    by.setdefault(x["case"], {}).setdefault(r, []).append(x)
        for case in job.cases:
            if case not in by:
                continue
            seqs = [by[case].get(r, []) for r in range(job.np)]
            if len({len(s) for s in seqs}) != 1:
                raise HarnessError("ragged log in %s" % case)
            yield case, job.cases[case][1], job.cases[case][2], seqs
