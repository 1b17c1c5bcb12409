"""Random PSS/E RAW files of versions 23, 33, 34 and 35 together with what a reader must
have stored for every record: {(key, index or -1): (type, value)} per bus and branch."""
import random, string


class Rec(dict):
    """expected data of one bus or branch"""

    def put(self, key, ty, val, idx=-1):
        self.setdefault((key, idx), (ty, val))


def fnum(r, lo=-5.0, hi=5.0):
    """a real number in one of the spellings found in RAW files"""
    x = r.uniform(lo, hi)
    k = r.randrange(7)
    if k == 0:
        return "%.5f" % x
    if k == 1:
        return "%.3f" % x
    if k == 2:
        return "%.6E" % (x * 10 ** r.randint(-4, 3))
    if k == 3:
        return "%d" % round(x)
    if k == 4:
        return "%d." % round(x)
    if k == 5:
        return ("%.4f" % x).replace("0.", ".", 1) if abs(x) < 1 else "%.4f" % x
    return "%.10g" % x


class Raw:
    def __init__(self, r, ver, nb, plain=False, threew=True):
        self.r, self.ver, self.plain = r, ver, plain
        self.buses = {}          # number -> Rec
        self.order = []
        self.branches = []       # Rec with .ends
        self.lookup = {}
        self.net = Rec()
        self.text = []
        self.sbase = r.choice(["100.0", "100.00", "1.0", "50.0", "100"])
        self.notes = {}
        self.make(nb, threew)

    # --- formatting
    def n(self, *a):
        return fnum(self.r, *a)

    def i(self, lo=0, hi=9):
        return str(self.r.randint(lo, hi))

    def line(self, toks):
        r = self.r
        if self.ver == 23:
            out = toks[0]
            for t in toks[1:]:
                out += r.choice([",", ", ", ",  "]) + t
        else:
            sep = r.choice([",", ", ", ",   "])
            out = sep.join(toks)
        out = r.choice(["", " ", "    "]) + out
        if r.random() < 0.15:
            out += r.choice([" / comment", "   /* x, y */", " /"])
        return out

    def block(self, recs, name):
        """records of one block, with comments between them, and the terminator"""
        for l in recs:
            if self.ver != 23 and not self.plain and self.r.random() < 0.1:
                self.text.append(self.r.choice(["@! comment, 1, 2", "// remark", "   @!   I,J,CKT"]))
            self.text.append(l)
        self.text.append(self.r.choice(["0 / END OF %s" % name, " 0 / END OF %s" % name, "0 /END OF %s, BEGIN" % name, "0"]))

    def blank(self, toks, allowed, p=0.08):
        """blank some fields; a blank field reads as zero"""
        for k in allowed:
            if k < len(toks) and self.r.random() < p:
                toks[k] = self.r.choice(["", " ", "  "])
        return toks

    @staticmethod
    def val(tok):
        tok = tok.strip()
        return float(tok) if tok else 0.0

    @staticmethod
    def ival(tok):
        tok = tok.strip()
        return int(float(tok)) if tok else 0

    def tag(self):
        r = self.r
        t = r.choice(["1", "2", "A", "B1", "10", "Z", "9X"])
        q = r.choice(["'%s'", "'%s'", "%s", "'%s '", "' %s'"])
        s = q % t
        if len(t) == 2 and "' " in s:
            s = "'%s'" % t
        return s, (t + " ") if len(t) == 1 else t

    def unique_tag(self, used):
        while True:
            s, t = self.tag()
            if t not in used:
                used.add(t)
                return s, t
            if len(used) > 5:
                t = "%02d" % (11 + len(used))
                used.add(t)
                return "'%s'" % t, t

    def put(self, rec, toks, spec, idx):
        """spec: list of (position, key, type)"""
        for pos, key, ty in spec:
            if pos < len(toks):
                if ty == "d":
                    rec.put(key, "d", self.val(toks[pos]), idx)
                elif ty == "i":
                    rec.put(key, "i", self.ival(toks[pos]), idx)
                elif ty == "q":
                    rec.put(key, "q", toks[pos].strip().strip("'").strip(), idx)

    def ref(self, b):
        """a reference to a bus by number or, in later versions, by its quoted name"""
        nm = self.names.get(b)
        if self.ver != 23 and nm and self.unique.get(nm, 0) == 1 and self.r.random() < 0.1:
            return "'%s'" % nm
        return str(b)

    # --- content
    def make(self, nb, threew):
        r, v = self.r, self.ver
        T = self.text
        self.names, self.unique = {}, {}
        nums = set()
        while len(nums) < nb:
            nums.add(r.choice([r.randint(1, 9), r.randint(1, 99), r.randint(1, 99999), r.randint(1, 400)]))
        nums = list(nums)
        r.shuffle(nums)
        self.order = nums
        if v != 23 and not self.plain and r.random() < 0.3:
            T.append("@!IC,SBASE,REV,XFRRAT,NXFRAT,BASFRQ")
        if v == 23:
            T.append("0 %s" % self.sbase + r.choice(["", "  / 23 format", " /"]))
        else:
            T.append(r.choice(["0, %s, %d, 0, 1, 60.00 / title", "0,%s,%d,0,0,60.0", "0,   %s, %d,     0,     1, 60.00"]) % (self.sbase, v))
        self.sb = float(self.sbase)
        T.append("TITLE, LINE 1")
        T.append("0 SECOND TITLE LINE" if r.random() < 0.3 else "")
        if v in (34, 35):
            rows = ["GENERAL, THRSHZ=0.0001, PQBRAK=0.7", "GAUSS, ITMX=100", "RATING, 1, 'RATE1 ', 'RATING SET 1'"]
            self.block(rows[:r.randint(0, 3)], "SYSTEM-WIDE DATA")
        self.net.put("CASE_SBASE", "d", self.sb)
        self.net.put("CASE_ID", "i", 0)
        self.make_buses()
        if v != 23:
            self.make_loads()
            self.make_fixed()
        self.make_gens()
        self.make_branches()
        if v in (34, 35):
            self.block(["1, 2, '1', 0.0, 1"][:r.randint(0, 1)], "SYSTEM SWITCHING DEVICE DATA")
        if v == 23:
            self.make_adjust()
        else:
            self.make_xform(threew)
        self.make_area()
        self.block(["1,1,0.1,2"][:r.randint(0, 1)], "TWO-TERMINAL DC DATA") if v == 23 else self.block([], "TWO-TERMINAL DC DATA")
        if v == 23:
            self.make_sw()
            self.block([], "IMPEDANCE CORRECTION DATA")
            T.append("")
            return
        self.block([], "VSC DC LINE DATA")
        self.make_icorr()
        self.block([], "MULTI-TERMINAL DC DATA")
        self.make_msect()
        self.block(["%d,'ZONE%d'" % (k, k) for k in range(1, r.randint(1, 4))], "ZONE DATA")
        self.block(["1,2,'1',%s" % self.n()][:r.randint(0, 1)], "INTER-AREA TRANSFER DATA")
        self.block(["%d,'OWN%d'" % (k, k) for k in range(1, r.randint(1, 3))], "OWNER DATA")
        self.block([], "FACTS DATA")
        self.make_sw()
        T.append("Q")

    def name(self, b):
        r = self.r
        al = string.ascii_uppercase + string.digits
        k = r.randrange(5)
        if k == 0:
            s = r.choice(al)
        elif k == 1:
            s = "BUS%d" % b
        elif k == 2:
            s = "ST %d KV" % r.randint(1, 99)
        elif k == 3:
            s = "".join(r.choice(al) for _ in range(r.randint(2, 12)))
        else:
            s = "A/B%d" % r.randint(1, 9)
        return s[:12]

    def make_buses(self):
        r, v = self.r, self.ver
        rows = []
        for b in self.order:
            rec = Rec()
            self.buses[b] = rec
            nm = self.name(b)
            self.names[b] = nm
            self.unique[nm] = self.unique.get(nm, 0) + 1
            q = "'%s'" % nm.ljust(r.choice([0, 8, 12]))
            rec.put("BUS_NUMBER", "i", b)
            rec.put("CASE_SBASE", "d", self.sb)
            rec.put("CASE_ID", "i", 0)
            if v == 23:
                if "/" in nm:
                    q = "'%s'" % nm.replace("/", "-")
                    self.names[b] = nm.replace("/", "-")
                t = [str(b), self.i(1, 4), self.n(0, 90), self.n(-9, 90), self.n(), self.n(), self.i(1, 5), self.n(0.9, 1.1), self.n(-40, 40), q, self.n(1, 500), self.i(1, 9)]
                if r.random() < 0.4:
                    t[2] = t[3] = "0.0"
                if r.random() < 0.4:
                    t[4] = t[5] = r.choice(["0.0", "0", "0.000"])
                self.put(rec, t, [(1, "BUS_TYPE", "i"), (6, "BUS_AREA", "i"), (7, "BUS_VOLTAGE_MAG", "d"), (8, "BUS_VOLTAGE_ANG", "d"), (9, "BUS_NAME", "q"),
                                  (10, "BUS_BASEKV", "d"), (11, "BUS_ZONE", "i")], -1)
                if float(t[2]) or float(t[3]):
                    self.put(rec, t, [(2, "LOAD_PL", "d"), (3, "LOAD_QL", "d")], 0)
                    for k in ("LOAD_IP", "LOAD_IQ", "LOAD_YP", "LOAD_YQ"):
                        rec.put(k, "d", 0.0, 0)
                    rec.put("LOAD_STATUS", "i", 1, 0)
                    rec.put("LOAD_NUMBER", "i", 1)
                    rec.put("LOAD_ID", "s", "1 ", 0)
                else:
                    rec.put("LOAD_NUMBER", "absent", None)
                if float(t[4]) or float(t[5]):
                    self.put(rec, t, [(4, "BUS_SHUNT_GL", "d"), (5, "BUS_SHUNT_BL", "d")], 0)
                    self.put(rec, t, [(4, "BUS_SHUNT_GL", "d"), (5, "BUS_SHUNT_BL", "d")], -1)
                    rec.put("SHUNT_NUMBER", "i", 1)
                else:
                    rec.put("BUS_SHUNT_BL", "absent", None)
            else:
                t = [str(b), q, self.n(1, 500), self.i(1, 4), self.i(1, 99), self.i(1, 99), self.i(1, 9), self.n(0.9, 1.1), self.n(-40, 40),
                     self.n(1, 1.2), self.n(0.8, 1), self.n(1, 1.2), self.n(0.8, 1)]
                self.blank(t, [2, 4, 5, 8])
                if r.random() < 0.3:
                    t = t[:r.choice([9, 11])]
                self.put(rec, t, [(1, "BUS_NAME", "q"), (2, "BUS_BASEKV", "d"), (3, "BUS_TYPE", "i"), (4, "BUS_AREA", "i"), (5, "BUS_ZONE", "i"), (6, "BUS_OWNER", "i"),
                                  (7, "BUS_VOLTAGE_MAG", "d"), (8, "BUS_VOLTAGE_ANG", "d"), (9, "BUS_VOLTAGE_MAX", "d"), (10, "BUS_VOLTAGE_MIN", "d")], -1)
            rows.append(self.line(t))
        if v == 23:
            self.text += rows
            self.text.append("0 / END OF BUS DATA")
        else:
            self.block(rows, "BUS DATA")

    def missing(self):
        """a bus number that is not in the network"""
        while True:
            b = self.r.randint(100000, 199999)
            if b not in self.buses:
                return b

    def multi(self, mean):
        """bus numbers in file order, some more than once"""
        r = self.r
        l = []
        for b in self.order:
            l += [b] * r.choice([0, 1, 1, 2, 3] if r.random() < mean else [0])
        if r.random() < 0.4:
            r.shuffle(l)
        return l

    def make_loads(self):
        r = self.r
        cnt, used, rows = {}, {}, []
        for b in self.multi(0.6):
            k = cnt.get(b, 0)
            cnt[b] = k + 1
            s, tag = self.unique_tag(used.setdefault(b, set()))
            t = [self.ref(b), s, self.i(0, 1), self.i(1, 9), self.i(1, 9)] + [self.n(-50, 90) for _ in range(6)] + [self.i(1, 9), "1", "0"]
            self.blank(t, [3, 4, 6, 7, 8, 9, 10])
            if r.random() < 0.2:
                t = t[:r.choice([7, 9, 11])]
            rec = self.buses[b]
            rec.put("LOAD_BUSNUMBER", "i", b, k)
            rec.put("LOAD_ID", "s", tag, k)
            spec = [(2, "LOAD_STATUS", "i"), (3, "LOAD_AREA", "i"), (4, "LOAD_ZONE", "i"), (5, "LOAD_PL", "d"), (6, "LOAD_QL", "d"), (7, "LOAD_IP", "d"), (8, "LOAD_IQ", "d"),
                    (9, "LOAD_YP", "d"), (10, "LOAD_YQ", "d")]
            self.put(rec, t, spec, k)
            if k == 0:
                self.put(rec, t, spec[3:5], -1)
            rows.append(self.line(t))
            if r.random() < 0.05:
                rows.append(self.line([str(self.missing())] + t[1:]))
        for b in self.order:
            self.buses[b].put("LOAD_NUMBER", "i" if cnt.get(b) else "absent", cnt.get(b))
            self.buses[b].put("LOAD_PL", "absent", None, cnt.get(b, 0))
        self.block(rows, "LOAD DATA")

    def make_fixed(self):
        r = self.r
        cnt, used, rows = {}, {}, []
        for b in self.multi(0.3):
            k = cnt.get(b, 0)
            cnt[b] = k + 1
            s, tag = self.unique_tag(used.setdefault(b, set()))
            t = [self.ref(b), s, self.i(0, 1), self.n(-5, 5), self.n(-90, 90)]
            self.blank(t, [3, 4])
            rec = self.buses[b]
            rec.put("SHUNT_BUSNUMBER", "i", b, k)
            rec.put("SHUNT_ID", "s", tag, k)
            spec = [(2, "SHUNT_STATUS", "i"), (3, "BUS_SHUNT_GL", "d"), (4, "BUS_SHUNT_BL", "d")]
            self.put(rec, t, spec, k)
            if k == 0:
                self.put(rec, t, spec[1:], -1)
            rows.append(self.line(t))
        for b in self.order:
            self.buses[b].put("SHUNT_NUMBER", "i" if cnt.get(b) else "absent", cnt.get(b))
        self.block(rows, "FIXED SHUNT DATA")

    def make_gens(self):
        r, v = self.r, self.ver
        cnt, used, rows = {}, {}, []
        for b in self.multi(0.5):
            k = cnt.get(b, 0)
            cnt[b] = k + 1
            s, tag = self.unique_tag(used.setdefault(b, set()))
            t = [self.ref(b), s] + [self.n(-90, 400) for _ in range(4)] + [self.n(0.9, 1.1), self.i(0, 99)]
            nreg = self.i(0, 9)
            if v == 35:
                t.append(nreg)
            t += [self.n(1, 500)] + [self.n(0, 1) for _ in range(5)] + [self.i(0, 1), self.n(0, 100), self.n(0, 900), self.n(-90, 90)]
            if v == 35:
                t.append(self.i(0, 2))
            o = 1 if v == 35 else 0
            spec = [(2, "GENERATOR_PG", "d"), (3, "GENERATOR_QG", "d"), (4, "GENERATOR_QMAX", "d"), (5, "GENERATOR_QMIN", "d"), (6, "GENERATOR_VS", "d"), (7, "GENERATOR_IREG", "i"),
                    (8 + o, "GENERATOR_MBASE", "d"), (13 + o, "GENERATOR_GTAP", "d"), (14 + o, "GENERATOR_STAT", "i"), (15 + o, "GENERATOR_RMPCT", "d"),
                    (16 + o, "GENERATOR_PMAX", "d"), (17 + o, "GENERATOR_PMIN", "d")]
            if v == 35:
                spec.append((8, "GENERATOR_NREG", "i"))
            self.blank(t, [3, 7, 9 + o, 11 + o, 13 + o])
            if v != 23:
                base = 20 if v == 35 else 18
                npair = r.choice([0, 1, 2, 4, 4])
                for q in range(npair):
                    t += [self.i(1, 9), self.n(0, 1)]
                    spec += [(base + 2 * q, "GENERATOR_OWNER%d" % (q + 1), "i"), (base + 2 * q + 1, "GENERATOR_OFRAC%d" % (q + 1), "d")]
                if npair == 4 and r.random() < 0.7:
                    t += [self.i(0, 3), self.n(0, 1)]
                    spec += [(base + 8, "GENERATOR_WMOD", "i"), (base + 9, "GENERATOR_WPF", "d")]
                    if v == 34 and r.random() < 0.6:
                        t.append(nreg)
                        spec.append((base + 10, "GENERATOR_NREG", "i"))
            rec = self.buses[b]
            rec.put("GENERATOR_BUSNUMBER", "i", b, k)
            rec.put("GENERATOR_ID", "s", tag, k)
            self.put(rec, t, spec, k)
            rec.put("GENERATOR_ZSOURCE", "c", (self.val(t[9 + o]), self.val(t[10 + o])), k)
            rec.put("GENERATOR_XTRAN", "c", (self.val(t[11 + o]), self.val(t[12 + o])), k)
            rows.append(self.line(t))
            if r.random() < 0.05:
                rows.append(self.line([str(self.missing())] + t[1:]))
        for b in self.order:
            self.buses[b].put("GENERATOR_NUMBER", "i" if cnt.get(b) else "absent", cnt.get(b))
            self.buses[b].put("GENERATOR_PG", "absent", None, cnt.get(b, 0))
        self.block(rows, "GENERATOR DATA")

    # --- branches
    def edge(self, a, b):
        """record, element index and whether listed against the direction of the first element"""
        if (a, b) in self.lookup:
            rec, sw = self.lookup[(a, b)], False
        elif (b, a) in self.lookup:
            rec, sw = self.lookup[(b, a)], True
        else:
            rec, sw = Rec(), False
            rec.ends, rec.n, rec.tags = (a, b), 0, set()
            self.lookup[(a, b)] = rec
            rec.put("BRANCH_INDEX", "i", len(self.branches))
            rec.put("BRANCH_FROMBUS", "i", a)
            rec.put("BRANCH_TOBUS", "i", b)
            rec.put("CASE_SBASE", "d", self.sb)
            self.branches.append(rec)
        k = rec.n
        rec.n += 1
        return rec, k, sw

    def pairs(self):
        """a spanning chain first, so that the network is connected, then extra pairs with parallels"""
        r = self.r
        o = list(self.order)
        l = []
        for i in range(1, len(o)):
            l.append((o[r.randrange(max(0, i - 4), i)], o[i]))
        for _ in range(r.randint(0, len(o))):
            a, b = r.sample(o, 2)
            l.append((a, b))
        for p in list(l):
            if r.random() < 0.2:
                l.append(p if r.random() < 0.5 else (p[1], p[0]))
        l = [p if r.random() < 0.7 else (p[1], p[0]) for p in l]
        r.shuffle(l)
        return l

    def make_branches(self):
        r, v = self.r, self.ver
        pl = self.pairs()
        if v == 23:
            self.here, self.later = pl, []
        else:
            cut = r.randint(len(pl) // 2, len(pl))
            self.here, self.later = pl[:cut], pl[cut:]
        rows = []
        for a, b in self.here:
            rec, k, sw = self.edge(a, b)
            s, tag = self.unique_tag(rec.tags)
            rec.put("BRANCH_CKT", "s", tag, k)
            rec.put("BRANCH_SWITCHED", "b", sw, k)
            A, B = self.ref(a), self.ref(b)
            if r.random() < 0.1 and B[0] != "'":
                B = "-" + B
            spec = [(3, "BRANCH_R", "d"), (4, "BRANCH_X", "d"), (5, "BRANCH_B", "d")]
            t = [A, B, s, self.n(0, 1), self.n(0.01, 1), self.n(0, 1)]
            if v == 34 or v == 35:
                t += ["'%s'" % r.choice(["LINE 1", "", "L", "A-B KV 230"])] + [self.n(0, 900) for _ in range(12)] + [self.n() for _ in range(4)] + [self.i(0, 1), self.i(1, 2), self.n(0, 90)]
                spec += [(7 + q, "BRANCH_RATE%d" % (q + 1), "d") for q in range(12)]
                spec += [(7 + q, "BRANCH_RATING_" + "ABC"[q], "d") for q in range(3)]
                o = 19
                f, m, ln, ow = 23, 24, 25, 26
            elif v == 33:
                t += [self.n(0, 900) for _ in range(3)] + [self.n() for _ in range(4)] + [self.i(0, 1), self.i(1, 2), self.n(0, 90)]
                spec += [(6 + q, "BRANCH_RATING_" + "ABC"[q], "d") for q in range(3)]
                o, f, m, ln, ow = 9, 13, 14, 15, 16
            else:
                t += [self.n(0, 900) for _ in range(3)] + [self.n(0.9, 1.1) if r.random() < 0.3 else "0.0", self.n(-30, 30) if r.random() < 0.2 else "0"] + [self.n() for _ in range(4)] + [self.i(0, 1)]
                spec += [(6 + q, "BRANCH_RATING_" + "ABC"[q], "d") for q in range(3)] + [(9, "BRANCH_TAP", "d"), (10, "BRANCH_SHIFT", "d")]
                o, f, m, ln, ow = 11, 15, None, None, None
            spec += [(o, "BRANCH_SHUNT_ADMTTNC_G1", "d"), (o + 1, "BRANCH_SHUNT_ADMTTNC_B1", "d"), (o + 2, "BRANCH_SHUNT_ADMTTNC_G2", "d"), (o + 3, "BRANCH_SHUNT_ADMTTNC_B2", "d"), (f, "BRANCH_STATUS", "i")]
            self.blank(t, [3, 5, o, o + 1, o + 2, o + 3])
            if m:
                spec += [(m, "BRANCH_METER", "i"), (ln, "BRANCH_LENGTH", "d")]
                for q in range(r.choice([0, 1, 2, 4])):
                    t += [self.i(1, 9), self.n(0, 1)]
                    spec += [(ow + 2 * q, "BRANCH_O%d" % (q + 1), "i"), (ow + 2 * q + 1, "BRANCH_F%d" % (q + 1), "d")]
                rec.put("BRANCH_TAP", "d", 0.0, k)
                rec.put("BRANCH_SHIFT", "d", 0.0, k)
            self.put(rec, t, spec, k)
            rows.append(self.line(t))
        self.block(rows, "BRANCH DATA")
        self.close()

    def close(self):
        for rec in self.branches:
            rec[("BRANCH_NUM_ELEMENTS", -1)] = ("i", rec.n)

    def make_adjust(self):
        """v23: transformer adjustment records refer to branches listed before"""
        r = self.r
        rows = []
        done = set()
        for a, b in self.here:
            rec = self.lookup.get((a, b))
            if rec is None or r.random() < 0.7:
                continue
            k = r.randrange(rec.n)
            if (id(rec), k) in done:
                continue
            done.add((id(rec), k))
            tag = rec[("BRANCH_CKT", k)][1].strip()
            sw = rec[("BRANCH_SWITCHED", k)][1]
            t = [str(b if sw else a), str(a if sw else b), "'%s'" % tag, self.i(0, 99)] + [self.n(0.8, 1.2) for _ in range(5)] + [self.i(0, 3)]
            self.put(rec, t, [(3, "TRANSFORMER_CONTROL", "i"), (4, "TRANSFORMER_RMA", "d"), (5, "TRANSFORMER_RMI", "d"), (6, "TRANSFORMER_VMA", "d"), (7, "TRANSFORMER_VMI", "d"),
                              (8, "TRANSFORMER_STEP", "d"), (9, "TRANSFORMER_TABLE", "i")], k)
            rows.append(self.line(t))
            if r.random() < 0.1:
                rows.append(self.line(t[:2] + ["'QQ'"] + t[3:]))
        self.block(rows, "TRANSFORMER ADJUSTMENT DATA")

    def ratings(self):
        return [self.n(0, 900) for _ in range(3 if self.ver == 33 else 12)]

    def make_xform(self, threew):
        r, v = self.r, self.ver
        rows = []
        nrat = 3 if v == 33 else 12
        jobs = [("2", p) for p in self.later]
        self.dummies = []
        if threew and len(self.order) >= 3:
            jobs += [("3", tuple(r.sample(self.order, 3))) for _ in range(r.choice([0, 0, 1, 2]))]
        r.shuffle(jobs)
        maxbus = max(self.order)
        for kind, p in jobs:
            cw = r.choice([1, 1, 2])
            st = r.choice([1, 1, 1, 0]) if kind == "2" else r.choice([1, 1, 2, 3, 4, 0])
            s, tag = None, None
            l1 = [self.ref(p[0]), self.ref(p[1]), self.ref(p[2]) if kind == "3" else "0", None, str(cw), "2", "1", self.n(), self.n(), self.i(1, 2), "'%s'" % r.choice(["T1", "XF 12", ""]), str(st)]
            own = []
            for q in range(r.choice([0, 1, 2, 4])):
                own += [self.i(1, 9), self.n(0, 1)]
            l1 += own
            if kind == "2":
                rec, k, sw = self.edge(*p)
                l1[3], tag = self.unique_tag(rec.tags)
                rec.put("BRANCH_CKT", "s", tag, k)
                rec.put("BRANCH_SWITCHED", "b", sw, k)
                spec = [(4, "TRANSFORMER_CW", "i"), (5, "TRANSFORMER_CZ", "i"), (6, "TRANSFORMER_CM", "i"), (7, "TRANSFORMER_MAG1", "d"), (8, "TRANSFORMER_MAG2", "d"), (8, "BRANCH_B", "d"),
                        (9, "TRANSFORMER_NMETR", "i"), (11, "BRANCH_STATUS", "i")]
                spec += [(12 + 2 * q, "BRANCH_O%d" % (q + 1), "i") for q in range(4)] + [(13 + 2 * q, "BRANCH_F%d" % (q + 1), "d") for q in range(4)]
                self.put(rec, l1, spec, k)
                sb2 = r.choice([self.sbase, self.sbase, self.n(10, 400), "0.0"])
                l2 = [self.n(0, 1), self.n(0.01, 1), sb2]
                self.put(rec, l2, [(0, "TRANSFORMER_R1_2", "d"), (1, "TRANSFORMER_X1_2", "d"), (2, "TRANSFORMER_SBASE1_2", "d")], k)
                nom1, nom2 = "%.1f" % r.uniform(10, 500), "%.1f" % r.uniform(10, 500)
                if cw == 2:
                    w1, w2 = "%.4f" % (float(nom1) * r.uniform(0.9, 1.1)), "%.4f" % (float(nom2) * r.uniform(0.9, 1.1))
                else:
                    w1, w2 = "%.5f" % r.uniform(0.9, 1.1), r.choice(["1.0", "1.00000", "%.4f" % r.uniform(0.95, 1.05)])
                    if r.random() < 0.5:
                        nom1 = nom2 = "0.0"
                l3 = [w1, nom1, self.n(-60, 60)] + self.ratings() + [self.i(0, 4), self.i(0, 99)]
                if v == 35:
                    l3 += [self.i(0, 3)]
                c = 3 + nrat
                spec = [(2, "BRANCH_SHIFT", "d"), (2, "TRANSFORMER_ANG1", "d"), (c, "TRANSFORMER_CODE1", "i")]
                spec += [(3 + q, "BRANCH_RATING_" + "ABC"[q], "d") for q in range(3)]
                if nrat == 12:
                    spec += [(3 + q, "BRANCH_RATE%d" % (q + 1), "d") for q in range(12)]
                c += 3 if v == 35 else 2
                l3 += [self.n(1, 1.2), self.n(0.8, 1), self.n(1, 1.2), self.n(0.8, 1), self.i(2, 33), self.i(0, 9), self.n(0, 0.1), self.n(0, 0.1), self.n(0, 0.1)]
                spec += [(c, "TRANSFORMER_RMA", "d"), (c + 1, "TRANSFORMER_RMI", "d"), (c + 2, "TRANSFORMER_VMA", "d"), (c + 3, "TRANSFORMER_VMI", "d")]
                if v != 34:
                    spec += [(c + 4, "TRANSFORMER_NTP", "i"), (c + 5, "TRANSFORMER_TAB", "i"), (c + 6, "TRANSFORMER_CR", "d"), (c + 7, "TRANSFORMER_CX", "d"), (c + 8, "TRANSFORMER_CNXA", "d")]
                if r.random() < 0.3:
                    l3 = l3[:-1]
                self.put(rec, l3, spec, k)
                a, b = float(w1), float(w2)
                if cw == 2:
                    a, b = a / float(nom1), b / float(nom2)
                rec.put("BRANCH_TAP", "~", a / b, k)
                rec.put("TRANSFORMER_WINDV1", "~", a, k)
                rec.put("TRANSFORMER_WINDV2", "~", b, k)
                f = b * b * (self.sb / float(sb2) if float(sb2) else 1.0)
                rec.put("BRANCH_R", "~", float(l2[0]) * f, k)
                rec.put("BRANCH_X", "~", float(l2[1]) * f, k)
                rows += [self.line(l1), self.line(l2), self.line(l3), self.line([w2, nom2])]
                continue
            l1[3], tag = self.tag()
            z = [(self.n(0, 1), self.n(0.05, 1), r.choice([self.sbase, self.sbase, self.n(10, 400)])) for _ in range(3)]
            l2 = [x for y in z for x in y] + [self.n(0.9, 1.1), self.n(-30, 30)]
            ws = []
            for q in range(3):
                ws.append([self.n(0.9, 1.1), self.n(10, 500), self.n(-30, 30)] + self.ratings() + ([self.i(0, 4), self.i(0, 99)] + (["0"] if v == 35 else []) +
                          [self.n(1, 1.2), self.n(0.8, 1), self.n(1, 1.2), self.n(0.8, 1), "33", "0", "0.0", "0.0", "0.0"]))
            rows.append("\n".join([self.line(l1), self.line(l2)] + [self.line(w) for w in ws]))
            if st == 0:
                continue
            maxbus += 1
            d = Rec()
            self.buses[maxbus] = d
            self.dummies.append(maxbus)
            for key, ty, val in (("BUS_NUMBER", "i", maxbus), ("BUS_NAME", "s", "DUMMY_BUS-%d-%d-%d" % p), ("BUS_TYPE", "i", 1), ("BUS_BASEKV", "d", 0.0), ("BUS_VOLTAGE_MAG", "d", 1.0),
                                 ("BUS_VOLTAGE_ANG", "d", 0.0), ("CASE_SBASE", "d", self.sb), ("BUS_AREA", "i", self.buses[p[0]][("BUS_AREA", -1)][1]),
                                 ("BUS_OWNER", "i", self.buses[p[0]][("BUS_OWNER", -1)][1])):
                d.put(key, ty, val)
            f = [self.sb / float(q[2]) for q in z]
            R = [float(q[0]) * g for q, g in zip(z, f)]
            X = [float(q[1]) * g for q, g in zip(z, f)]
            star = lambda y: (0.5 * (y[0] + y[2] - y[1]), 0.5 * (y[0] + y[1] - y[2]), 0.5 * (y[1] + y[2] - y[0]))
            on = {1: (1, 1, 1), 2: (1, 0, 1), 3: (1, 1, 0), 4: (0, 1, 1)}[st]
            for q in range(3):
                rec = Rec()
                rec.ends, rec.n, rec.tags = (p[q], maxbus), 1, set()
                rec.put("BRANCH_INDEX", "i", len(self.branches))
                self.branches.append(rec)
                rec.put("BRANCH_FROMBUS", "i", p[q])
                rec.put("BRANCH_TOBUS", "i", maxbus)
                rec.put("BRANCH_CKT", "s", tag, 0)
                rec.put("BRANCH_SWITCHED", "b", False, 0)
                rec.put("BRANCH_STATUS", "i", on[q], 0)
                rec.put("BRANCH_R", "~", star(R)[q], 0)
                rec.put("BRANCH_X", "~", star(X)[q], 0)
                rec.put("BRANCH_B", "d", 0.0, 0)
                rec.put("CASE_SBASE", "d", self.sb)
                spec = [(0, "BRANCH_TAP", "d"), (2, "BRANCH_SHIFT", "d")] + [(3 + e, "BRANCH_RATING_" + "ABC"[e], "d") for e in range(3)]
                if nrat == 12:
                    spec += [(3 + e, "BRANCH_RATE%d" % (e + 1), "d") for e in range(12)]
                self.put(rec, ws[q], spec, 0)
                rec.put("BRANCH_SHUNT_ADMTTNC_G1", "d", float(l1[7]) if q == 0 else 0.0, 0)
                rec.put("BRANCH_SHUNT_ADMTTNC_B1", "d", float(l1[8]) if q == 0 else 0.0, 0)
        # comments only between whole records
        text, out = rows, []
        self.text += text
        self.text.append("0 / END OF TRANSFORMER DATA")
        self.close()

    def make_area(self):
        r = self.r
        rows, n = [], r.randint(0, 4)
        for k in range(n):
            t = [str(k + 1), str(r.choice(self.order)), self.n(-90, 90), self.n(0, 9), "'AREA %d'" % (k + 1)]
            self.put(self.net, t, [(0, "AREAINTG_NUMBER", "i"), (1, "AREAINTG_ISW", "i"), (2, "AREAINTG_PDES", "d"), (3, "AREAINTG_PTOL", "d"), (4, "AREAINTG_NAME", "q")], k)
            rows.append(self.line(t))
        self.net.put("AREA_TOTAL", "i", n)
        self.block(rows, "AREA DATA")

    def make_icorr(self):
        r, v = self.r, self.ver
        rows = []
        self.tables = {}
        for k in range(r.choice([0, 0, 1, 3])):
            m = r.randint(1, 11) if v == 33 else r.randint(1, 6)
            pts = sorted((round(r.uniform(0.5, 1.5), 3), round(r.uniform(0.8, 1.2), 3)) for _ in range(m))
            self.tables[k + 1] = pts
            if v == 33:
                rows.append(self.line([str(k + 1)] + [str(x) for p in pts for x in p]))
            else:
                toks = [str(k + 1)] + [str(x) for p in pts for x in (p[0], p[1], 0.0)]
                cut = 1 + 3 * r.randint(1, m)
                rows.append(", ".join(toks[:cut]))
                if cut < len(toks):
                    rows.append("    " + ", ".join(toks[cut:]))
                rows.append("   0.0, 0.0, 0.0")
        keep, self.plain = self.plain, True
        self.block(rows, "IMPEDANCE CORRECTION DATA")
        self.plain = keep

    def make_msect(self):
        r = self.r
        rows, done = [], set()
        for rec in self.branches:
            if r.random() < 0.1 and rec.ends in self.lookup and id(rec) not in done:
                done.add(id(rec))
                a, b = rec.ends
                if r.random() < 0.3:
                    a, b = b, a
                m = r.randint(1, 9)
                dum = [self.i(1, 999) for _ in range(m)]
                t = [str(a), str(b), r.choice(["'&1'", "'&2'"]), self.i(1, 2)] + dum
                rec.put("MULTI_SEC_LINE_ID", "s", t[2].strip("'"))
                self.put(rec, t, [(3, "MULTI_SEC_LINE_MET", "i")] + [(4 + q, "MULTI_SEC_LINE_DUM%d" % (q + 1), "i") for q in range(9)], -1)
                rows.append(self.line(t))
        if r.random() < 0.2:
            rows.append(self.line([str(self.missing()), str(self.order[0]), "'&1'", "1", "2", "3"]))
        self.block(rows, "MULTI-SECTION LINE DATA")

    def make_sw(self):
        r, v = self.r, self.ver
        rows = []
        for b in r.sample(self.order, min(len(self.order), r.choice([0, 0, 1, 2, 5]))):
            m = r.randint(1, 8)
            nb = [(self.i(1, 5), self.n(-50, 50)) for _ in range(m)]
            if v == 23:
                t = [str(b), self.i(0, 2), self.n(1, 1.1), self.n(0.9, 1), self.i(0, 99), self.n(-50, 50)] + [x for p in nb for x in p]
                spec = [(1, "SHUNT_MODSW", "i"), (2, "SHUNT_VSWHI", "d"), (3, "SHUNT_VSWLO", "d"), (4, "SHUNT_SWREM", "i"), (5, "SHUNT_BINIT", "d")]
                spec += [(6 + 2 * q, "SHUNT_N%d" % (q + 1), "i") for q in range(8)] + [(7 + 2 * q, "SHUNT_B%d" % (q + 1), "d") for q in range(8)]
            elif v == 35:
                t = [str(b), "'1'", self.i(0, 2), self.i(0, 1), self.i(0, 1), self.n(1, 1.1), self.n(0.9, 1), self.i(0, 99), self.i(0, 9), self.n(0, 100), "'%s'" % r.choice(["", "VSC1"]), self.n(-50, 50)]
                spec = [(2, "SHUNT_MODSW", "i"), (3, "SHUNT_ADJM", "i"), (4, "SHUNT_SWCH_STAT", "i"), (5, "SHUNT_VSWHI", "d"), (6, "SHUNT_VSWLO", "d"), (7, "SHUNT_SWREG", "i"), (8, "SHUNT_NREG", "i"),
                        (9, "SHUNT_RMPCT", "d"), (10, "SHUNT_RMIDNT", "q"), (11, "SHUNT_BINIT", "d")]
                for q, p in enumerate(nb):
                    t += [self.i(0, 1)] + list(p)
                    spec += [(12 + 3 * q, "SHUNT_S%d" % (q + 1), "i"), (13 + 3 * q, "SHUNT_N%d" % (q + 1), "i"), (14 + 3 * q, "SHUNT_B%d" % (q + 1), "d")]
            else:
                t = [str(b), self.i(0, 2), self.i(0, 1), self.i(0, 1), self.n(1, 1.1), self.n(0.9, 1), self.i(0, 99), self.n(0, 100), "'%s'" % r.choice(["", "VSC1"]), self.n(-50, 50)]
                t += [x for p in nb for x in p]
                spec = [(1, "SHUNT_MODSW", "i"), (2, "SHUNT_ADJM", "i"), (3, "SHUNT_SWCH_STAT", "i"), (4, "SHUNT_VSWHI", "d"), (5, "SHUNT_VSWLO", "d"),
                        (6, "SHUNT_SWREM" if v == 33 else "SHUNT_SWREG", "i"), (7, "SHUNT_RMPCT", "d"), (8, "SHUNT_RMIDNT", "q"), (9, "SHUNT_BINIT", "d")]
                spec += [(10 + 2 * q, "SHUNT_N%d" % (q + 1), "i") for q in range(8)] + [(11 + 2 * q, "SHUNT_B%d" % (q + 1), "d") for q in range(8)]
                if v == 34 and m == 8 and r.random() < 0.6:
                    t.append(self.i(0, 9))
                    spec.append((26, "SHUNT_NREG", "i"))
            rec = self.buses[b]
            rec.put("SWSHUNT_BUSNUMBER", "i", b)
            self.put(rec, t, spec, -1)
            rows.append(self.line(t))
        self.block(rows, "SWITCHED SHUNT DATA")

    def file(self):
        return "\n".join(self.text) + "\n"

    def keys(self):
        ks = set()
        for d in list(self.buses.values()) + self.branches + [self.net]:
            ks |= {k for k, _ in d}
        return ks
