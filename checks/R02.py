from checks.R01 import *
from vlib import dyrfields as DF

ALIAS = {"GENERATOR_DAMPING_COEFFICIENT_0": "GENERATOR_DAMPING_COEFFICENT_0"}
KINDS = {"machine": ["GENCLS", "GENSAL", "GENROU", "GDFORM", "REGCA1", "REGCB1", "REGCC1"],
         "exciter": ["EXDC1", "EXDC2", "IEEET1", "ESST1A", "ESST4B", "SEXS", "REECA1"],
         "governor": ["GGOV1", "TGOV1", "GAST", "HYGOV", "WSIEG1", "WSHYGP"],
         "pss": ["PSSSIM"], "plant": ["REPCA1", "REPCTA1"],
         "drive": ["WTDTA1"], "aero": ["WTARA1"], "pitch": ["WTPTA1"], "torque": ["WTTQA1"]}
LOADS = ["CIM6BL", "IEELBL", "ACMTBLU1"]
FLAGS = sorted({m[2] for m in DF.MODELS.values() if m[2]} | {m[1] for m in DF.MODELS.values()})


class Dyr:
    """a RAW file with a file of device parameters"""

    def __init__(self, rng, ver, nb):
        self.r = r = rng
        self.raw = raw = rawgen.Raw(rng, ver, nb)
        self.ver = ver
        self.recs, self.counts = [], {}
        gens = [(b, k, rec[("GENERATOR_ID", k)][1]) for b, rec in raw.buses.items() for k in range(9) if ("GENERATOR_ID", k) in rec]
        loads = [(b, k, rec[("LOAD_ID", k)][1]) for b, rec in raw.buses.items() for k in range(9) if ("LOAD_ID", k) in rec]
        ends = sorted({rec.ends for rec in raw.branches})
        full = r.random()
        for b, k, tag in gens:
            kinds = [x for x in KINDS if r.random() < (0.9 if x == "machine" else full * 0.6)]
            set_ = set()
            for kind in kinds:
                m = r.choice(KINDS[kind])
                self.add(m, b, tag, raw.buses[b], k)
                set_ |= {DF.MODELS[m][1], DF.MODELS[m][2]}
                if "WIND_" in DF.MODELS[m][1]:
                    raw.buses[b][("WIND_ID", k)] = ("q", tag.strip())
            for key in FLAGS:
                if key not in set_ and "LOAD" not in key and "RELAY" not in key:
                    raw.buses[b][(key, k)] = ("absent", None)
        for b, k, tag in loads:
            if r.random() < 0.6:
                self.add(r.choice(LOADS), b, tag, raw.buses[b], k)
            else:
                raw.buses[b][("LOAD_MODEL", k)] = ("absent", None)
        # relays are numbered in the order of the file, so all of one bus or branch come here
        relays = []
        for b in raw.order:
            for _ in range(r.choice([0, 0, 0, 1, 2, 3])):
                relays.append((r.choice(["LVSHBL", "FRQTPAT"]), b, raw.buses[b], ("bus", b)))
        for e in ends:
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                relays.append(("DISTR1", e, [x for x in raw.branches if x.ends == e], ("branch", e)))
        r.shuffle(relays)
        for m, at, rec, id_ in relays:
            k = self.counts.get(id_, 0)
            self.counts[id_] = k + 1
            self.add(m, at, r.choice(["1", "2", "A ", "&1"]), rec, k)
        for rec, id_ in [(raw.buses[b], ("bus", b)) for b in raw.order] + [(x, ("branch", x.ends)) for x in raw.branches]:
            n = self.counts.get(id_)
            rec[("RELAY_NUMBER", -1)] = ("i", n) if n else ("absent", None)
            rec[("RELAY_MODEL", n or 0)] = ("absent", None)
        # records of buses, branches and identifiers that are not there
        for _ in range(r.randint(0, 4)):
            m = r.choice(sorted(DF.MODELS))
            b = raw.missing()
            if DF.MODELS[m][0] == "gen" and r.random() < 0.5:
                b = r.choice(raw.order)
            self.add(m, (b, raw.missing()) if m == "DISTR1" else b, "Q7", None, 0)
        head = [x for x in self.recs if x[1]]
        rest = [x for x in self.recs if not x[1]]
        if r.random() < 0.5:
            r.shuffle(rest)
        out, h, q = [], list(head), list(rest)
        while h or q:
            out.append((h if h and (not q or r.random() < len(h) / (len(h) + len(q))) else q).pop(0)[0])
        lines = []
        for x in out:
            if r.random() < 0.1:
                lines.append(r.choice(["// a comment", "// generator 1 'GENROU' 1 5.0 /", "", "   ", "//  x  ", "//", "/ none"]))
            lines.append(x)
        eol = "\r\n" if r.random() < 0.2 else "\n"
        self.text = eol.join(lines) + (eol if r.random() < 0.8 else "")
        if eol == "\r\n":
            self.text = self.text.replace("\r\n", "\n").replace("\n", "\r\n")
        if r.random() < 0.15 and not rest:
            self.text = self.text.rstrip().rstrip("/")

    def value(self, t):
        r = self.r
        if t == "i":
            s = "%d" % r.randint(0, 9)
            return s, int(s)
        if t == "q":
            s = r.choice(["1", "2", "B1", "&1"])
            return r.choice(["%s", "'%s'"]) % s, s
        s = rawgen.fnum(r)
        return s, float(s)

    def add(self, model, at, tag, rec, k):
        r = self.r
        kind, mkey, flag, _ = DF.MODELS[model]
        fl = DF.fields(model)
        n = max(c for _, c, _ in fl) + 1
        toks = [self.value("d")[0] for _ in range(n)]
        comma = r.random() < 0.5
        name = model if r.random() < 0.8 or model in ("ACMTBLU1", "CMLDBLU1") else model.lower()
        q = r.choice(["'%s'", "'%s'", "%s"])
        vals = {}
        for key, c, t in fl:
            toks[c], vals[key] = self.value(t)
            if comma and t != "q" and c > 4 and r.random() < 0.03:
                toks[c], vals[key] = " ", 0
        tg = tag.strip()
        tg = r.choice(["'%s'", "%s", "'%s'"] + (["'%s '"] if len(tg) == 1 else [])) % tg
        if model != "FRQTPAT":
            toks[2] = tg
            toks[0] = str(at[0] if isinstance(at, tuple) else at)
        toks[1] = q % name
        if model in ("ACMTBLU1", "CMLDBLU1"):
            toks[1], toks[3] = q % r.choice(["USRLOD", "USRLOD", "usrlod"]), "'%s'" % model
        if model == "DISTR1":
            toks[2] = str(at[1])
        if model == "LVSHBL":
            vals["RELAY_LID"] = tag.strip()
        if model == "FRQTPAT":
            toks[3] = str(at)
        cut = n
        if model not in ("FRQTPAT", "DISTR1") and n > 10 and r.random() < 0.12:
            cut = r.randint(6, n - 1)
            toks = toks[:cut]
        # layout: one line or several, a line may end inside the list of parameters
        sep = r.choice([", ", ",", " , ", ",  "]) if comma else r.choice([" ", "  ", "   "])
        s, line = "", ""
        brk = r.choice([0.0, 0.0, 0.1, 0.3])
        for i, x in enumerate(toks):
            line += x
            if i < len(toks) - 1:
                if i > 2 and r.random() < brk:
                    s += line + ("," if comma else "") + "\n"
                    line = "   " if r.random() < 0.7 else ""
                else:
                    line += sep
        s += line + r.choice([" /", "/", "  / end", "\n/"])
        s = ("  " if r.random() < 0.3 else "") + s
        self.recs.append((s, kind == "relay"))
        for x in ([] if rec is None else rec if isinstance(rec, list) else [rec]):
            for key, c, t in fl:
                x[(ALIAS.get(key, key), k)] = (t, vals[key]) if c < cut else ("0", 0)
            x[(mkey, k)] = ("q", model)
            if flag:
                x[(flag, k)] = ("b", True)

    def keys(self):
        return self.raw.keys() | {ALIAS.get(k, k) for m in DF.MODELS for k, _, _ in DF.fields(m)} | set(FLAGS) | {"RELAY_NUMBER", "WIND_ID"}

    def file(self):
        return self.raw.file() + "=== dyr\n" + self.text


class R02(R01):
    id = "R02"
    plan = {"quick": [(1, 60, "pd"), (2, 16, "pd"), (4, 16, "pd"), (3, 10, "pd"), (8, 6, "pd")],
            "thorough": [(1, 1000, "pd"), (2, 250, "pd"), (4, 250, "pd"), (3, 150, "pd"), (6, 100, "pd"), (8, 80, "pd")]}
    rule = ("a case is one random network file and one random file of device parameters for it, with records of 31 kinds of generators, exciters, governors, stabilisers, plant controllers, wind "
            "turbines, loads and relays on any of several units per bus, over one or several lines, with commas or blanks, comments, short records and records of absent buses and units; every stored "
            "value on every copy of the bus or branch is compared with the record; distinct by file and processes")
    assumptions = ["at most one model of each kind per unit", "identifiers have one or two characters", "parameters left out at the end of a record read as zero or are not stored",
                   "the identifiers in both files are the same after removing quotes and blanks"]

    def jobs(self):
        for np, n, mode in self.plan[TIER]:
            left = n
            j = 0
            while left > 0:
                m = min(left, 20)
                left -= m
                j += 1
                files, lines, cases = {}, [], {}
                keys = set()
                for c in range(m):
                    ver = self.rng.choice([23, 33, 33, 34, 35])
                    nb = self.rng.choice([3, 5, 8, 12, 20]) if np == 1 else 3 * np + self.rng.randint(2, 12)
                    d = Dyr(random.Random(self.rng.getrandbits(60)), ver, nb)
                    cid = "c%d" % c
                    files["d/%s.raw" % cid] = d.raw.file()
                    files["d/%s.dyr" % cid] = d.text
                    keys |= d.keys()
                    d.tables, d.buses, d.branches, d.net = getattr(d.raw, "tables", {}), d.raw.buses, d.raw.branches, d.raw.net
                    cases[cid] = d
                    lines.append("case %s %d %s 8 @D/d/%s.raw" % (cid, ver, mode, cid))
                files["keys.txt"] = "\n".join(sorted(keys)) + "\n"
                job = Job("dyr#%d.%d" % (np, j), "vh/vh_raw", ["@D/keys.txt", "@D/cases2.txt", "@D/out"], np, cases, text="", timeout=120 if TIER == "quick" else 240, cwd_files=files)
                job.cwd_files["cases2.txt"] = "\n".join(x.replace("@D/", "") for x in lines) + "\n"
                yield job

    def compare(self, case, what, exp, data, job, ver):
        n = exp.get(("RELAY_NUMBER", -1), ("i", 0))[1]
        if job.np == 1 or not n:
            return R01.compare(self, case, what, exp, data, job, ver)
        # on several processes the relays of a bus or branch arrive in any order
        isr = lambda k: k[0].startswith("RELAY_") and 0 <= k[1] < n
        bad = R01.compare(self, case, what, {k: e for k, e in exp.items() if not isr(k)}, data, job, ver)
        store = {}
        for key, l in data.items():
            for idx, ty, val in l:
                store.setdefault((key, idx), []).append((ty, val))
        left = set(range(n))
        for i in range(n):
            want = {k: e for k, e in exp.items() if isr(k) and k[1] == i}
            self.stat("values_compared", len(want))
            for j in sorted(left):
                if not any(wrong(e, store.get((k[0], j), [])) for k, e in want.items()):
                    left.discard(j)
                    break
            else:
                bad += 1
                self.v("relay", case, "version %d, %s: none of the %d relays stored is the %s of the file" % (ver, what, n, want[("RELAY_MODEL", i)][1]), job)
        return bad
