from vlib.core import *
from vlib import rawgen


class R04(Check):
    id = "R04"
    targets = ["vh_raw"]
    plan = {"quick": [(1, 40), (2, 12), (4, 12), (3, 8), (7, 6)], "thorough": [(1, 600), (2, 200), (4, 200), (3, 100), (7, 100)]}
    rule = ("a case is one random RAW file of format version 23, 33 or 34 without three-winding transformers, read on 1..7 processes (before or after the partition), exported with the exporter of its version, "
            "and read again with the same parser; the sets of buses and branches and every value of every field of every device of an active object are compared between the two readings; distinct by file and processes")
    assumptions = ["the exporter's six decimals", "transformer data are written in the exporter's normalised units, multi-section grouping is not written, loads without power are left out"]

    def jobs(self):
        for np, n in self.plan[TIER]:
            for j0 in range(0, n, 20):
                files, lines, cases, keys = {}, [], {}, set()
                for c in range(min(20, n - j0)):
                    ver = self.rng.choice([23, 33, 33, 34])
                    nb = self.rng.choice([3, 5, 8, 12, 20, 40]) if np == 1 else 3 * np + self.rng.randint(2, 12)
                    raw = rawgen.Raw(random.Random(self.rng.getrandbits(60)), ver, nb, threew=False)
                    cid = "c%d" % c
                    files["d/%s.raw" % cid] = raw.file()
                    keys |= raw.keys()
                    cases[cid] = raw
                    lines.append("case %s %d %s 8 d/%s.raw" % (cid, ver, "px" if np > 1 else self.rng.choice(["fx", "px"]), cid))
                files["keys.txt"] = "\n".join(sorted(keys)) + "\n"
                files["cases2.txt"] = "\n".join(lines) + "\n"
                yield Job("exp#%d.%d" % (np, j0), "vh/vh_raw", ["@D/keys.txt", "@D/cases2.txt", "@D/out"], np, cases, text="", timeout=120 if TIER == "quick" else 240, cwd_files=files)

    def case_text(self, job, case):
        c = job.cases.get(case)
        return c.file() if c else ""

    def judge(self, job, res):
        bycase = {}
        for rank, recs in enumerate(res.ranks):
            for x in recs:
                if "case" in x:
                    bycase.setdefault(x["case"], []).append((rank, x))
        for case, raw in job.cases.items():
            l = bycase.get(case, [])
            if any(x["t"] == "threw" for _, x in l):
                self.v("threw", case, "version %d: %s" % (raw.ver, [x["what"] for _, x in l if x["t"] == "threw"][0]), job)
                continue
            first = min((x["stage"] for _, x in l if x["t"] == "net"), default=None)
            last = 1 if any(x["t"] == "net" and x["stage"] == 1 for _, x in l) else 0
            before = {}
            after = {}
            for r, x in l:
                if x["t"] in ("bus", "branch") and x["act"]:
                    k = x["orig"] if x["t"] == "bus" else (x["from"], x["to"])
                    if x["stage"] == last:
                        before[k] = x["data"]
                    elif x["stage"] == 3:
                        after.setdefault(k, x["data"])
            if not before:
                self.v("no-network", case, "version %d: nothing recorded" % raw.ver, job)
                continue
            self.diff(case, raw, before, after, job)

    # not written by design: normalised codes, sections, the written order, and the
    # generator's total impedance in the branch (checked through TRANSFORMER_R1_2/X1_2)
    SKIP = re.compile(r"TRANSFORMER_C[WZ]$|MULTI_SEC_|BRANCH_INDEX$")
    DROPPED23 = re.compile(r"SHUNT_|SWSHUNT_")
    DROPPED34 = re.compile(r"SHUNT_(SWREG|NREG|SWNREG|SWREM)$")

    def diff(self, case, raw, before, after, job):
        ver, n0, lost = raw.ver, len(self.viol), {}
        for k in set(after) - set(before):
            self.v("extra:%s" % ("branch" if isinstance(k, tuple) else "bus"), case, "version %d %s appears only after the round trip" % (ver, k), job)
        ndev = nval = 0
        for k, d in before.items():
            a = after.get(k)
            isb = isinstance(k, tuple)
            if a is None:
                self.v("missing:%s" % ("branch" if isb else "bus"), case, "version %d %s is not in the exported file" % (ver, k), job)
                continue
            xf = {i for i, t, v in d.get("TRANSFORMER_R1_2", [])}
            # loads without any power are left out of the file: renumber the others
            keep = None
            if not isb:
                power = {i for key in ("PL", "QL", "IP", "IQ", "YP", "YQ") for i, t, v in d.get("LOAD_" + key, []) if i >= 0 and v != 0}
                keep, n = {}, 0
                for i in sorted(power):
                    keep[i] = n
                    n += 1
            for key in sorted(set(d) | set(a)):
                if self.SKIP.search(key):
                    continue
                vals = d.get(key, [])
                isload = not isb and key.startswith("LOAD_")
                if isload:
                    if key == "LOAD_NUMBER":
                        vals = [(i, t, len(keep)) for i, t, v in vals if keep]
                    else:
                        vals = [(keep[i], t, v) for i, t, v in vals if i in keep]
                av = {(i, t): v for i, t, v in a.get(key, [])}
                for i, t, v in vals:
                    nval += 1
                    w = av.pop((i, t), None)
                    if isb and key in ("BRANCH_R", "BRANCH_X") and i in xf:
                        continue
                    if w is None:
                        lost[key] = "%s %s index %s was %r" % (k, key, i, v)
                    elif t == "d" and abs(v - w) <= 1e-6 + 1e-6 * abs(v):
                        pass
                    elif t == "c" and abs(complex(*v) - complex(*w)) <= 2e-6:
                        pass
                    elif t == "s" and str(v).strip(" '") == str(w).strip(" '"):
                        pass
                    elif v != w:
                        if ver == 34 and self.DROPPED34.match(key):
                            lost[key] = "%s %s index %s was %r and is %r" % (k, key, i, v, w)
                            continue
                        self.v("%d:changed:%s" % (ver, key), case, "%s %s index %s was %r and is %r after the round trip" % (k, key, i, v, w), job)
            ndev += 1
        ok = len(self.viol) == n0
        if ver == 23 and any(self.DROPPED23.match(x) for x in lost):
            self.v("23:switched-shunts-not-exported", case, next(lost[x] for x in lost if self.DROPPED23.match(x)), job)
            lost = {x: y for x, y in lost.items() if not self.DROPPED23.match(x)}
        if ver == 34 and any(self.DROPPED34.match(x) for x in lost):
            self.v("34:switched-shunt-regulation-not-exported", case, next(lost[x] for x in lost if self.DROPPED34.match(x)), job)
            lost = {x: y for x, y in lost.items() if not self.DROPPED34.match(x)}
        for key, msg in sorted(lost.items()):
            self.v("%d:lost:%s" % (ver, key), case, msg, job)
            ok = False
        self.stat("objects", ndev)
        self.stat("values", nval)
        if ok:
            self.ok("v%d np%d %d" % (ver, job.np, hash(raw.file())), "%s: %d objects, %d values" % (case, ndev, nval))
