from vlib.core import *
from vlib.rawgen import Rec
from checks.R01 import R01


class Mat:
    """a random MATPOWER case (format 2) and what a reader must have stored for it"""
    ver = 0
    tables = {}

    def __init__(self, r, nb):
        self.r = r
        self.buses, self.branches, self.net = {}, [], Rec()
        self.out = []
        fun = r.choice(["mpc", "mpc", "casedata"])
        w = self.out.append
        w("function %s = case%d" % (fun, nb))
        w("%% MATPOWER case, %d buses" % nb)
        if r.random() < 0.5:
            w("%s.version = '2';" % fun)
        base = r.choice(["100", "100.0", "50", "1.5"])
        w("%%-----  Power Flow Data  -----%%")
        w("%s.baseMVA = %s;" % (fun, base))
        self.net.put("CASE_SBASE", "d", float(base))
        nums = r.sample(range(1, 6 * nb), nb)
        if r.random() < 0.5:
            nums.sort()
        self.block("bus", fun)
        for b in nums:
            d = self.buses[b] = Rec()
            zl, zs = r.random() < 0.4, r.random() < 0.6
            t = [str(b), r.choice("1234") if b != nums[0] else "3"] + [self.n() if not zl else "0" for _ in "pq"] + [self.n() if not zs else "0" for _ in "gb"]
            if not zl and r.random() < 0.3:
                t[r.choice([2, 3])] = "0"
            if not zs and r.random() < 0.3:
                t[r.choice([4, 5])] = "0"
            t += [str(r.randint(1, 9)), self.n(0.8, 1.2), self.n(-60, 60), self.n(1, 500), str(r.randint(1, 9)), self.n(1, 1.2), self.n(0.8, 1)]
            d.put("BUS_NUMBER", "i", b)
            d.put("BUS_NAME", "s", "BUS_%d" % b)
            d.put("BUS_TYPE", "i", int(t[1]))
            d.put("BUS_AREA", "i", int(t[6]))
            d.put("BUS_ZONE", "i", int(t[10]))
            for k, i in (("BUS_VOLTAGE_MAG", 7), ("BUS_VOLTAGE_ANG", 8), ("BUS_BASEKV", 9), ("BUS_VOLTAGE_MAX", 11), ("BUS_VOLTAGE_MIN", 12)):
                d.put(k, "d", float(t[i]))
            on = float(t[2]) != 0 or float(t[3]) != 0
            for k, i in (("LOAD_PL", 2), ("LOAD_QL", 3)):
                d.put(k, *(("d", float(t[i])) if on else ("absent", None)), idx=0)
            d.put("LOAD_NUMBER", *(("i", 1) if on else ("0", None)))
            if on:
                d.put("LOAD_ID", "q", "1", 0)
                d.put("LOAD_STATUS", "i", 1, 0)
            on = float(t[4]) != 0 or float(t[5]) != 0
            for k, i in (("BUS_SHUNT_GL", 4), ("BUS_SHUNT_BL", 5)):
                d.put(k, *(("d", float(t[i])) if on else ("absent", None)), idx=0)
                if on:
                    d.put(k, "d", float(t[i]))
            d.put("SHUNT_NUMBER", *(("i", 1) if on else ("0", None)))
            self.row(t)
        self.end()
        gens, k = [], {}
        cand = r.sample(nums, max(1, nb // 2))
        for _ in range(r.randint(1, nb + 3)):
            b = r.choice(cand)
            if k.get(b, 0) < 8:
                gens.append((b, k.get(b, 0)))
                k[b] = k.get(b, 0) + 1
        for b in nums:
            self.buses[b].put("GENERATOR_NUMBER", *(("i", k[b]) if b in k else ("0", None)))
            self.buses[b].put("GENERATOR_PG", "absent", None, k.get(b, 0))
        blocks = [lambda: self.gens(fun, gens), lambda: self.lines(fun, nums)]
        if r.random() < 0.3:
            blocks.reverse()
        for f in blocks:
            f()
        if r.random() < 0.5:
            self.block("areas", fun)
            for i in range(r.randint(1, 4)):
                a = [str(r.randint(1, 50)), str(r.choice(nums))]
                self.net.put("AREAINTG_NUMBER", "i", int(a[0]), i)
                self.net.put("AREAINTG_ISW", "i", int(a[1]), i)
                self.row(a)
            self.end()
        if r.random() < 0.7:
            self.block("gencost", fun)
            for pre in ["", "R_"][:r.choice([1, 1, 2])]:
                for b, g in gens:
                    d, m = self.buses[b], r.choice("12")
                    n = r.randint(1, 4)
                    v = [self.n() for _ in range(n * (2 if m == "1" else 1))]
                    for i, x in enumerate(v):
                        key = ("PF"[i % 2] + str(i // 2 + 1)) if m == "1" else "C%d" % (n - i)
                        d.put("GENCOST_PARAM_%s%s" % (pre, key), "d", float(x), g)
                    self.row([m, self.n(0, 9), "0", str(n)] + v + ["0"] * r.choice([0, 0, 2]))
            self.end()

    def gens(self, fun, gens):
        r = self.r
        self.block("gen", fun)
        for i, (b, g) in enumerate(gens):
            d = self.buses[b]
            t = [str(b)] + [self.n() for _ in range(4)] + [self.n(0.9, 1.1), self.n(10, 200), r.choice(["0", "1"]), self.n(0, 300), self.n(-10, 10)]
            t += ["0"] * r.choice([0, 11])
            d.put("GENERATOR_BUSNUMBER", "i", b, g)
            d.put("GENERATOR_STAT", "i", int(t[7]), g)
            d.put("GENERATOR_ID", "q", str(g + 1), g)
            for key, c in (("PG", 1), ("QG", 2), ("QMAX", 3), ("QMIN", 4), ("VS", 5), ("MBASE", 6), ("PMAX", 8), ("PMIN", 9)):
                d.put("GENERATOR_" + key, "d", float(t[c]), g)
            d.put("GENERATOR_GLOBAL_IDX", "i", i, g)
            self.row(t)
        self.end()

    def lines(self, fun, nums):
        r = self.r
        self.block("branch", fun)
        pairs = [(nums[i], nums[r.randrange(max(0, i - 3), i)]) for i in range(1, len(nums))]
        for _ in range(r.randint(0, len(nums))):
            pairs.append(tuple(r.sample(nums, 2)) if r.random() < 0.5 else r.choice(pairs))
        if r.random() < 0.5:
            r.shuffle(pairs)
        look = {}
        for a, b in pairs:
            key = frozenset((a, b))
            if key in look and look[key].n >= 8:
                continue
            if r.random() < 0.4:
                a, b = b, a
            d = look.get(key)
            if d is None:
                d = look[key] = Rec()
                d.ends, d.n = (a, b), 0
                self.branches.append(d)
            i = d.n
            d.n += 1
            t = [str(a), str(b)] + [self.n() for _ in range(6)] + [r.choice(["0", self.n(0.9, 1.1)]), r.choice(["0", self.n(-30, 30)]), r.choice("01"), "-360", "360"]
            d.put("BRANCH_SWITCHED", "b", d.ends != (a, b), i)
            d.put("BRANCH_CKT", "q", str(i + 1), i)
            d.put("BRANCH_STATUS", "i", int(t[10]), i)
            for k, c in (("R", 2), ("X", 3), ("B", 4), ("RATING_A", 5), ("RATING_B", 6), ("RATING_C", 7), ("TAP", 8), ("SHIFT", 9)):
                d.put("BRANCH_" + k, "d", float(t[c]), i)
            self.row(t)
        for d in self.branches:
            d.put("BRANCH_NUM_ELEMENTS", "i", d.n)
            d.put("BRANCH_FROMBUS", "i", d.ends[0])
            d.put("BRANCH_TOBUS", "i", d.ends[1])
            d.put("BRANCH_R", "absent", None, d.n)
        self.end()

    def n(self, lo=-5.0, hi=300.0):
        x = self.r.uniform(lo, hi)
        return self.r.choice(["%.4f", "%.10g", "%.2f", "%.5e", "%d"]) % x

    def block(self, name, fun):
        if self.r.random() < 0.6:
            self.out += ["", "%%%% %s data" % name]
        self.out.append("%s.%s = [" % (fun, name))
        self.sep = self.r.choice(["\t", "\t", " ", "   "])

    def row(self, toks):
        lead = self.r.choice(["\t", "\t", " ", ""])
        self.out.append(lead + self.sep.join(toks) + ";" + ("" if self.r.random() < 0.9 else " % note"))

    def end(self):
        self.out.append("];")

    def file(self):
        return "\n".join(self.out) + "\n"

    def keys(self):
        return {k for d in [self.net] + list(self.buses.values()) + self.branches for k, _ in d}


class R03(R01):
    id = "R03"
    plan = {"quick": [(1, 75, "f"), (2, 16, "p"), (4, 16, "p"), (3, 8, "p")],
            "thorough": [(1, 1200, "f"), (2, 200, "p"), (4, 200, "p"), (3, 150, "p"), (6, 100, "p"), (8, 80, "p")]}
    rule = ("a case is one random MATPOWER case file with loads and shunts present or not, several generators per bus, parallel and reversed branches, areas and polynomial or "
            "piecewise-linear costs for real and reactive power, in changing layouts; every stored value of every key is compared with the file, after reading and again on every process "
            "after partitioning; distinct by file and processes")
    assumptions = ["tables hold no comment lines or empty lines between their rows, and end with a line '];'", "generators stand at buses of the case"]

    def make(self, ver, nb):
        return Mat(random.Random(self.rng.getrandbits(60)), nb)
