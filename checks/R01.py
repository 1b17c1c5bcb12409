from vlib.core import *
from vlib import rawgen

TYPES = {"i": "integer", "d": "real", "s": "string", "q": "string", "b": "logical", "c": "complex", "~": "real"}


def wrong(exp, got):
    """why what was stored under one key and index is not what the file says, or None"""
    ty, val = exp
    if ty == "absent":
        return "the file has no such value, %s is stored" % (got,) if got else None
    if ty == "0":
        return "must be zero or missing, %s is stored" % (got,) if any(g for _, g in got) else None
    want = {"q": "s", "~": "d"}.get(ty, ty)
    have = [g for t, g in got if t == want]
    if not have:
        return "the file says %r (%s), stored is %s" % (val, TYPES[ty], got or "nothing")
    g = have[0]
    if ty == "q":
        if g.strip().strip("'").strip() != val:
            return "the file says %r, stored is %r" % (val, g)
    elif ty == "~":
        if not abs(g - val) <= 1e-12 * max(abs(val), 1e-3):
            return "must be %.17g, stored is %.17g" % (val, g)
    elif ty == "c":
        if tuple(g) != tuple(val):
            return "the file says %s, stored is %s" % (val, g)
    elif g != val:
        return "the file says %r, stored is %r" % (val, g)
    return None


class R01(Check):
    id = "R01"
    targets = ["vh_raw"]
    plan = {"quick": [(1, 100, "f"), (2, 16, "p"), (4, 16, "p"), (3, 10, "p"), (8, 6, "p")],
            "thorough": [(1, 1500, "f"), (2, 250, "p"), (4, 250, "p"), (3, 150, "p"), (6, 100, "p"), (8, 80, "p")]}
    rule = ("a case is one random RAW file of version 23, 33, 34 or 35 with several loads, generators, shunts and parallel circuits per bus and pair, reversed pairs, two- and three-winding "
            "transformers, blank fields, comments, short records and records of unknown buses; every stored value of every key is compared with the file, after reading and again on every "
            "process after partitioning; distinct by file and processes")
    assumptions = ["every block ends with its terminating record", "bus names contain no commas, quotes or slashes outside quotes", "transformer impedances are given on the winding base (CZ=2)",
                   "blank fields only where zero is meant"]

    def jobs(self):
        for np, n, mode in self.plan[TIER]:
            left = n
            j = 0
            while left > 0:
                m = min(left, 25)
                left -= m
                j += 1
                files, lines, cases = {}, [], {}
                keys = set()
                for c in range(m):
                    ver = self.rng.choice([23, 33, 33, 34, 35])
                    nb = self.rng.choice([3, 5, 8, 12, 20, 40]) if np == 1 else 3 * np + self.rng.randint(2, 12)
                    raw = self.make(ver, nb)
                    ver = raw.ver
                    cid = "c%d" % c
                    files["d/%s.raw" % cid] = raw.file()
                    keys |= raw.keys()
                    cases[cid] = raw
                    lines.append("case %s %d %s 8 @D/d/%s.raw" % (cid, ver, mode, cid))
                files["keys.txt"] = "\n".join(sorted(keys)) + "\n"
                job = Job("raw#%d.%d" % (np, j), "vh/vh_raw", ["@D/keys.txt", "@D/cases2.txt", "@D/out"], np, cases, text="", timeout=120 if TIER == "quick" else 240, cwd_files=files)
                job.cwd_files["cases2.txt"] = "\n".join(x.replace("@D/", "") for x in lines) + "\n"
                yield job

    def make(self, ver, nb):
        return rawgen.Raw(random.Random(self.rng.getrandbits(60)), ver, nb)

    def case_text(self, job, case):
        c = job.cases.get(case)
        return c.file() if c else ""

    def compare(self, case, what, exp, data, job, ver):
        bad = 0
        store = {}
        for key, l in data.items():
            for idx, ty, val in l:
                store.setdefault((key, idx), []).append((ty, val))
        for k, e in exp.items():
            w = wrong(e, store.get(k, []))
            self.stat("values_compared")
            if w:
                bad += 1
                self.v("value:%s" % k[0], case, "version %d, %s, %s%s: %s" % (ver, what, k[0], "" if k[1] < 0 else "[%d]" % k[1], w), job)
        return bad

    def judge(self, job, res):
        bycase = {}
        for rank, recs in enumerate(res.ranks):
            cur = None
            for x in recs:
                if "case" in x:
                    bycase.setdefault(x["case"], []).append((rank, x))
        for case, raw in job.cases.items():
            l = bycase.get(case, [])
            ver = raw.ver
            if any(x["t"] == "threw" for _, x in l):
                self.v("threw", case, "version %d: reading threw %s" % (ver, [x["what"] for _, x in l if x["t"] == "threw"][0]), job)
                continue
            for _, x in l:
                if x["t"] == "tables":
                    for k in range(1, 5):
                        pts = raw.tables.get(k, [])
                        self.stat("tables_compared", 1 if pts else 0)
                        if (x["T%d" % k], x["F%d" % k]) != ([p[0] for p in pts], [p[1] for p in pts]):
                            self.v("impedance-table", case, "version %d: correction table %d is %s %s, the file has %s" % (ver, k, x["T%d" % k], x["F%d" % k], pts), job)
            stages = sorted({x["stage"] for _, x in l if x["t"] == "net"})
            bmap = {}
            for i, rec in enumerate(raw.branches):
                bmap.setdefault(rec.ends, []).append(rec)
            for st in stages:
                nets = [(r, x) for r, x in l if x["t"] == "net" and x["stage"] == st]
                for r, x in nets:
                    if (x["totbus"], x["totbranch"]) != (len(raw.buses), len(raw.branches)):
                        self.v("counts", case, "version %d: %d buses and %d branches, the file has %d and %d" % (ver, x["totbus"], x["totbranch"], len(raw.buses), len(raw.branches)), job)
                    if r == 0:
                        self.compare(case, "network data on process 0", raw.net, x["data"], job, ver)
                seen, bseen = {}, {}
                for r, x in l:
                    if x["t"] == "bus" and x["stage"] == st:
                        b = x["orig"]
                        if b not in raw.buses:
                            self.v("bus-number", case, "version %d: a bus %d that is not in the file" % (ver, b), job)
                            continue
                        if x["act"]:
                            seen[b] = seen.get(b, 0) + 1
                        self.compare(case, "bus %d%s" % (b, "" if st == 0 else " on process %d after partitioning" % r), raw.buses[b], x["data"], job, ver)
                        self.stat("buses_compared")
                    elif x["t"] == "branch" and x["stage"] == st:
                        e = (x["from"], x["to"])
                        if e not in bmap:
                            self.v("branch-ends", case, "version %d: a branch %s that is not in the file" % (ver, e), job)
                            continue
                        if x["act"]:
                            bseen[e] = bseen.get(e, 0) + 1
                        rec = bmap[e][0]
                        self.compare(case, "branch %d-%d%s" % (e + ("" if st == 0 else " on process %d after partitioning" % r,)), rec, x["data"], job, ver)
                        self.stat("branches_compared")
                        self.smax("parallel_elements_max", rec.n)
                if any(v != 1 for v in seen.values()) or len(seen) != len(raw.buses):
                    self.v("bus-once", case, "version %d: owned copies per bus %s, the file has %d buses" % (ver, {b: c for b, c in seen.items() if c != 1} or len(seen), len(raw.buses)), job)
                if any(bseen.get(e, 0) != len(q) for e, q in bmap.items()):
                    self.v("branch-once", case, "version %d: owned copies per branch differ from the file" % ver, job)
            self.stat("version_%d" % ver)
            self.ok((raw.file(), job.np), {"version": ver, "buses": len(raw.buses), "branches": len(raw.branches), "processes": job.np, "stages": len(stages)})
