"""Random transmission networks with a planted voltage solution, their RAW files of versions
23, 33, 34 and 35, and the power flow quantities a program must report for given voltages.
Nothing here is taken from the code under test."""
import cmath, math, random


def f(x):
    return "%.15g" % x


class Grid:
    """buses: number -> dict(type vm va area zone); loads, fixed, gens: lists of dicts with bus;
    sw: bus -> (b, status); lines: list of dicts (f t ckt r x b g1 b1 g2 b2 tap shift st xf rate)"""

    def __init__(self, r, nb, ver=33, start="near", isolated=True, sign=1.0, sbase=None, mat=False):
        """mat: to be written as a MATPOWER case (single loads and shunts as in version 23, no line or switched shunts)"""
        self.mat = mat
        self.r, self.ver, self.start = r, 23 if mat else ver, start
        self.sbase = r.choice([100.0, 100.0, 100.0, 50.0, 200.0])
        if sbase:
            self.sbase = sbase
        self.buses, self.loads, self.fixed, self.gens, self.sw, self.lines = {}, [], [], [], {}, []
        self.sign = float(sign)
        nums = set()
        while len(nums) < nb:
            nums.add(r.choice([r.randint(1, 99), r.randint(1, 400), r.randint(1, 99999)]))
        self.order = list(nums)
        r.shuffle(self.order)
        self.topology(isolated)
        if mat:
            n = {}
            for l in self.lines:
                l.update(g1=0.0, b1=0.0, g2=0.0, b2=0.0)
                key = frozenset((l["f"], l["t"]))
                n[key] = n.get(key, 0) + 1
                l["ckt"] = str(n[key])
        self.plant()
        if mat:
            n = {}
            for g in self.gens:
                n[g["bus"]] = n.get(g["bus"], 0) + 1
                g["id"] = str(n[g["bus"]])

    # ------------------------------------------------------------------ topology
    def add_line(self, a, b, st=1, xf=None):
        r = self.r
        if r.random() < 0.5:
            a, b = b, a
        used = {l["ckt"] for l in self.lines if {l["f"], l["t"]} == {a, b}}
        ckt = r.choice([c for c in ["1", "2", "3", "A1", "BL", "99", "7"] if c not in used])
        d = dict(f=a, t=b, ckt=ckt, r=round(r.uniform(0.001, 0.03), 5), x=round(r.uniform(0.03, 0.25), 5), b=0.0, g1=0.0, b1=0.0, g2=0.0, b2=0.0, tap=0.0, shift=0.0, st=st,
                 rate=[round(r.uniform(20, 300), 1) if r.random() < 0.8 else 0.0 for _ in range(3)])
        if xf is None:
            xf = r.random() < 0.3
        if xf:
            d["tap"] = round(r.uniform(0.92, 1.08), 4)
            if r.random() < 0.4:
                d["shift"] = round(r.uniform(-12, 12), 3)
            if self.ver == 23 and r.random() < 0.5:
                d["b"] = round(r.uniform(0, 0.1), 4)
        else:
            d["b"] = round(r.uniform(0, 0.15), 4) if r.random() < 0.8 else 0.0
        if not xf and r.random() < 0.15:
            d["g1"], d["b1"], d["g2"], d["b2"] = [round(r.uniform(0, 0.02), 4), round(r.uniform(-0.1, 0.1), 4), round(r.uniform(0, 0.02), 4), round(r.uniform(-0.1, 0.1), 4)]
        self.lines.append(d)
        return d

    def topology(self, isolated):
        r = self.r
        niso = r.choice([0, 0, 1, 2]) if isolated and len(self.order) > 6 else 0
        self.iso = set(self.order[:niso])
        live = self.order[niso:]
        tree = [live[0]]
        for b in live[1:]:
            self.add_line(r.choice(tree[-4:]) if r.random() < 0.7 else r.choice(tree), b)
            tree.append(b)
        self.live = tree
        for _ in range(r.randint(0, max(1, len(live)))):
            if len(live) > 1:
                a, b = r.sample(live, 2)
                n = sum(1 for l in self.lines if {l["f"], l["t"]} == {a, b})
                if n < 3:
                    self.add_line(a, b, st=r.choice([1, 1, 1, 0]))
        for l in list(self.lines):       # parallel circuits
            if r.random() < 0.2 and sum(1 for q in self.lines if {l["f"], l["t"]} == {q["f"], q["t"]}) < 3:
                self.add_line(l["f"], l["t"], st=r.choice([1, 1, 0]))
        for b in self.iso:
            for a in r.sample(live, min(len(live), r.randint(1, 2))):
                self.add_line(a, b, st=0)
        r.shuffle(self.lines)

    # ------------------------------------------------------------------ electrical model
    def stamp(self, l):
        """(Yff, Yft, Ytf, Ytt) of one branch in service, without its line shunts"""
        y = 1 / complex(l["r"], l["x"])
        c = 0.5j * l["b"]
        if l["tap"]:
            a = cmath.rect(l["tap"], self.sign * math.radians(l["shift"]))
            return (y + c) / abs(a) ** 2, -y / a.conjugate(), -y / a, y + c
        return y + c, -y, -y, y + c

    def ybus(self, lines_out=()):
        Y = {}
        for n, l in enumerate(self.lines):
            if not l["st"] or n in lines_out:
                continue
            a, b, c, d = self.stamp(l)
            if not l["tap"]:
                a += complex(l["g1"], l["b1"])
                d += complex(l["g2"], l["b2"])
            for i, j, v in ((l["f"], l["f"], a), (l["f"], l["t"], b), (l["t"], l["f"], c), (l["t"], l["t"], d)):
                Y[i, j] = Y.get((i, j), 0) + v
        for s in self.fixed:
            if s["st"]:
                Y[s["bus"], s["bus"]] = Y.get((s["bus"], s["bus"]), 0) + complex(s["g"], s["b"]) / self.sbase
        for b, (v, st) in self.sw.items():
            if st:
                Y[b, b] = Y.get((b, b), 0) + 1j * v / self.sbase
        return Y

    def inject(self, V, lines_out=()):
        """complex power injected into the network at each bus, p.u."""
        I = {b: 0j for b in self.buses}
        for (i, j), y in self.ybus(lines_out).items():
            I[i] += y * V[j]
        return {b: V[b] * I[b].conjugate() for b in I}

    def load(self, b):
        s = 0j
        for l in self.loads:
            if l["bus"] == b and l["st"]:
                s += complex(l["pl"] + l["ip"] + l["yp"], l["ql"] - l["iq"] - l["yq"])
        return s

    def flow(self, l, V):
        a, b, c, d = self.stamp(l)
        vf, vt = V[l["f"]], V[l["t"]]
        return vf * (a * vf + b * vt).conjugate() * self.sbase, vt * (c * vf + d * vt).conjugate() * self.sbase

    # ------------------------------------------------------------------ planted solution
    def plant(self):
        r = self.r
        V = {}
        nbr = {}
        for l in self.lines:
            if l["st"]:
                nbr.setdefault(l["f"], []).append((l["t"], -1))
                nbr.setdefault(l["t"], []).append((l["f"], 1))
        root = r.choice(self.live)
        ang = {root: r.uniform(-20, 20)}
        todo = [root]
        spread = r.choice([2.0, 4.0, 7.0])
        # angles follow the phase shifters, so that flows stay moderate
        lead = {}
        for l in self.lines:
            if l["st"]:
                s = self.sign * l["shift"] if l["tap"] else 0.0
                lead.setdefault((l["f"], l["t"]), -s)
                lead.setdefault((l["t"], l["f"]), s)
        while todo:
            a = todo.pop()
            for b, _ in nbr.get(a, []):
                if b not in ang:
                    ang[b] = ang[a] + lead[a, b] * 0.7 + r.uniform(-spread, spread)
                    todo.append(b)
        for b in self.order:
            V[b] = cmath.rect(r.uniform(0.97, 1.06), math.radians(ang.get(b, 0.0)))
        self.V = V
        kinds = {}
        for b in self.live:
            kinds[b] = r.choice([1, 1, 1, 2, 2])
        kinds[root] = 3
        self.root = root
        for b in self.order:
            self.buses[b] = dict(type=4 if b in self.iso else kinds[b], area=r.randint(1, 3), zone=r.randint(1, 4), kv=r.choice([69.0, 138.0, 230.0]))
        for b in self.order:          # shunts and line data first: they enter the injections
            n = r.choice([0, 0, 0, 1, 1, 2]) if self.ver != 23 else r.choice([0, 0, 1])
            for k in range(n):
                self.fixed.append(dict(bus=b, id=str(k + 1), st=1 if self.ver == 23 else r.choice([1, 1, 0]), g=round(r.uniform(0, 4), 3), b=round(r.uniform(-20, 30), 3)))
            if not self.mat and r.random() < 0.12:
                self.sw[b] = (round(r.uniform(-30, 30), 3), 1 if self.ver == 23 else r.choice([1, 1, 0]))
        S = self.inject(V)
        for b in self.order:
            t = self.buses[b]["type"]
            s = S[b] * self.sbase
            ngen = {1: r.choice([0, 0, 0, 0, 1, 2]), 2: r.randint(1, 3), 3: r.randint(1, 3), 4: r.choice([0, 1])}[t]
            nl = r.choice([0, 1, 1, 2, 3]) if self.ver != 23 else r.choice([0, 1])
            on = [r.random() < 0.75 for _ in range(ngen)]
            if t in (2, 3) and not any(on) and (t == 3 or r.random() < 0.7):
                on[r.randrange(ngen)] = True
            lon = [r.random() < 0.8 or self.ver == 23 for _ in range(nl)]
            need_gen = (t == 2 and any(on)) or t == 3
            if t == 1 and any(on) and not any(lon):
                need_gen = True
            if t != 4 and not need_gen and not any(lon):
                # nothing can take the planted injection: a fixed shunt does (transit bus)
                if r.random() < 0.4:
                    y = (-s / abs(V[b]) ** 2).conjugate()
                    have = [q for q in self.fixed if q["bus"] == b]
                    if self.ver == 23 and have:
                        have[0]["g"] += y.real
                        have[0]["b"] += y.imag
                        have[0]["st"] = 1
                    else:
                        self.fixed.append(dict(bus=b, id="%d" % (len(have) + 1), st=1, g=y.real, b=y.imag))
                    s = 0j
                    if not any(on):
                        nl = len(lon)
                        self.put_loads(b, lon, 0j)
                        self.put_gens(b, on, 0j, t)
                        continue
                lon = lon + [True] if self.ver != 23 else [True]
            L = 0j
            if t == 4 or need_gen:
                L = complex(round(r.uniform(0, 80), 2), round(r.uniform(-10, 40), 2)) if any(lon) else 0j
                G = s + L if t != 4 else complex(r.uniform(0, 50), r.uniform(-5, 20))
            else:
                G = complex(round(r.uniform(0, 60), 2), round(r.uniform(-10, 20), 2)) if any(on) else 0j
                L = G - s
            self.put_loads(b, lon, L)
            self.put_gens(b, on, G, t)

    def split(self, s, n):
        w = [self.r.uniform(0.2, 1) for _ in range(n)]
        t = sum(w)
        return [s * x / t for x in w]

    def put_loads(self, b, on, L):
        r = self.r
        parts = self.split(L, sum(on)) if any(on) else []
        for k, st in enumerate(on):
            d = dict(bus=b, id=["1", "2", "L3", "X"][k], st=int(st), ip=0.0, iq=0.0, yp=0.0, yq=0.0)
            s = parts.pop() if st else complex(r.uniform(0, 90), r.uniform(-20, 50))
            if self.ver != 23 and r.random() < 0.3:
                d["ip"], d["yp"] = round(s.real * r.uniform(0, 0.4), 3), round(s.real * r.uniform(0, 0.4), 3)
                d["iq"], d["yq"] = round(-s.imag * r.uniform(0, 0.4), 3), round(s.imag * r.uniform(-0.4, 0.4), 3)
            d["pl"] = s.real - d["ip"] - d["yp"]
            d["ql"] = s.imag + d["iq"] + d["yq"]
            self.loads.append(d)

    def put_gens(self, b, on, G, t):
        r = self.r
        parts = self.split(G, sum(on)) if any(on) else []
        vs = abs(self.V[b])
        for k, st in enumerate(on):
            s = parts.pop() if st else complex(r.uniform(-10, 200), r.uniform(-20, 50))
            if t in (2, 3) and st:
                s = complex(s.real, round(r.uniform(-20, 40), 2))
            if t == 3 and st:
                s = complex(round(r.uniform(0, 100), 2), s.imag)
            pb = round(r.uniform(-20, 20), 1)
            self.gens.append(dict(bus=b, id=["1", "G2", "3"][k], st=int(st), pg=s.real, qg=s.imag, qt=round(abs(s.imag) + r.uniform(5, 300), 1), qb=-round(abs(s.imag) + r.uniform(5, 300), 1),
                                  vs=vs, pt=pb + round(r.uniform(20, 300), 1), pb=pb))

    def initial(self):
        """starting voltages written to the file"""
        r = self.r
        out = {}
        for b in self.order:
            v, a = abs(self.V[b]), math.degrees(cmath.phase(self.V[b]))
            if b == self.root:
                out[b] = (v if r.random() < 0.5 else 1.0, a)
            elif self.start == "near":
                out[b] = (v + r.uniform(-0.01, 0.01), a + r.uniform(-1.5, 1.5))
            elif self.start == "exact":
                out[b] = (v, a)
            else:
                out[b] = (1.0, math.degrees(cmath.phase(self.V[self.root])))
        return out

    # ------------------------------------------------------------------ RAW files
    def matfile(self):
        ini = self.vinit = self.initial()
        T = ["function mpc = case%d" % len(self.order), "mpc.version = '2';", "mpc.baseMVA = %s;" % f(self.sbase), "mpc.bus = ["]
        row = lambda *t: T.append("\t" + "\t".join(x if isinstance(x, str) else str(x) if isinstance(x, int) else f(x) for x in t) + ";")
        for b in self.order:
            d = self.buses[b]
            l = ([x for x in self.loads if x["bus"] == b] + [dict(pl=0.0, ql=0.0)])[0]
            s = ([x for x in self.fixed if x["bus"] == b] + [dict(g=0.0, b=0.0)])[0]
            row(b, d["type"], l["pl"], l["ql"], s["g"], s["b"], d["area"], ini[b][0], ini[b][1], d["kv"], d["zone"], 1.1, 0.9)
        T += ["];", "mpc.gen = ["]
        for g in self.gens:
            row(g["bus"], g["pg"], g["qg"], g["qt"], g["qb"], g["vs"], g.get("mbase", 100.0), g["st"], g["pt"], g["pb"])
        T += ["];", "mpc.branch = ["]
        for l in self.lines:
            row(l["f"], l["t"], l["r"], l["x"], l["b"], *l["rate"], l["tap"], l["shift"] if l["tap"] else 0.0, l["st"], -360.0, 360.0)
        return "\n".join(T + ["];"]) + "\n"

    def file(self):
        if self.mat:
            return self.matfile()
        r, v = self.r, self.ver
        T = []
        q = lambda s: "'%-2s'" % s
        ini = self.vinit = self.initial()
        if v == 23:
            T += ["0 %s / case" % f(self.sbase), "T1", "T2"]
        else:
            T += ["0, %s, %d, 0, 1, 60.00 / case" % (f(self.sbase), v), "T1", "T2"]
            if v >= 34:
                T.append("0 / END OF SYSTEM-WIDE DATA")
        for b in self.order:
            d = self.buses[b]
            vm, va = ini[b]
            if v == 23:
                l = [x for x in self.loads if x["bus"] == b] + [dict(pl=0.0, ql=0.0)]
                s = [x for x in self.fixed if x["bus"] == b] + [dict(g=0.0, b=0.0)]
                T.append(", ".join([str(b), str(d["type"]), f(l[0]["pl"]), f(l[0]["ql"]), f(s[0]["g"]), f(s[0]["b"]), str(d["area"]), f(vm), f(va), "'B%-8d'" % b, f(d["kv"]), str(d["zone"])]))
            else:
                T.append(",".join([str(b), "'B%-10d'" % b, f(d["kv"]), str(d["type"]), str(d["area"]), str(d["zone"]), "1", f(vm), f(va), "1.1", "0.9", "1.1", "0.9"]))
        T.append("0 / END OF BUS DATA")
        if v != 23:
            for l in self.loads:
                T.append(", ".join([str(l["bus"]), q(l["id"]), str(l["st"]), str(self.buses[l["bus"]]["area"]), str(self.buses[l["bus"]]["zone"])] + [f(l[k]) for k in ("pl", "ql", "ip", "iq", "yp", "yq")] + ["1", "1", "0"]))
            T.append("0 / END OF LOAD DATA")
            for s in self.fixed:
                T.append(", ".join([str(s["bus"]), q(s["id"]), str(s["st"]), f(s["g"]), f(s["b"])]))
            T.append("0 / END OF FIXED SHUNT DATA")
        for g in self.gens:
            T.append(", ".join([str(g["bus"]), q(g["id"]), f(g["pg"]), f(g["qg"]), f(g["qt"]), f(g["qb"]), f(g["vs"]), "0"] + (["0"] if v == 35 else []) + [f(g.get("mbase", 100.0)), f(g.get("ra", 0.0)), f(g.get("x", 0.2)), "0.0", "0.0", "1.0", str(g["st"]), "100.0", f(g["pt"]), f(g["pb"])] +
                               (["0"] if v == 35 else []) + (["1", "1.0"] if v != 23 else [])))
        T.append("0 / END OF GENERATOR DATA")
        xf = []
        for l in self.lines:
            if l["tap"] and v != 23:
                xf.append(l)
                continue
            t = [str(l["f"]), str(l["t"]), q(l["ckt"]), f(l["r"]), f(l["x"]), f(l["b"])]
            rate = [f(x) for x in l["rate"]]
            sh = [f(l[k]) for k in ("g1", "b1", "g2", "b2")]
            if v == 23:
                t += rate + [f(l["tap"]), f(l["shift"])] + sh + [str(l["st"])]
            elif v == 33:
                t += rate + sh + [str(l["st"]), "1", "0.0", "1", "1.0"]
            else:
                t += ["'L'"] + rate + ["0.0"] * 9 + sh + [str(l["st"]), "1", "0.0", "1", "1.0"]
            T.append(", ".join(t))
        T.append("0 / END OF BRANCH DATA")
        if v >= 34:
            T.append("0 / END OF SYSTEM SWITCHING DEVICE DATA")
        for l in xf:
            T.append(", ".join([str(l["f"]), str(l["t"]), "0", q(l["ckt"]), "1", "2", "1", "0.0", "0.0", "2", "'XF'", str(l["st"]), "1", "1.0"]))
            T.append(", ".join([f(l["r"]), f(l["x"]), f(self.sbase)]))
            rate = [f(x) for x in l["rate"]] + (["0.0"] * 9 if v >= 34 else [])
            T.append(", ".join([f(l["tap"]), "0.0", f(l["shift"])] + rate + ["0", "0"] + (["0"] if v == 35 else []) + ["1.1", "0.9", "1.1", "0.9", "33", "0", "0.0", "0.0", "0.0"]))
            T.append("1.0, 0.0")
        T.append("0 / END OF TRANSFORMER DATA" if v != 23 else "0 / END OF ADJUSTMENT DATA")
        T += ["0 / END OF AREA DATA", "0 / END OF TWO-TERMINAL DC DATA"]
        sw = []
        for b, (bi, st) in self.sw.items():
            if v == 23:
                sw.append("%d, 0, 1.1, 0.9, 0, %s, 1, %s" % (b, f(bi), f(abs(bi))))
            elif v == 35:
                sw.append("%d, '1', 0, 0, %d, 1.1, 0.9, 0, 0, 100.0, ' ', %s, 1, 1, %s" % (b, st, f(bi), f(abs(bi))))
            else:
                sw.append("%d, 0, 0, %d, 1.1, 0.9, 0, 100.0, ' ', %s, 1, %s" % (b, st, f(bi), f(abs(bi))))
        if v == 23:
            T += sw + ["0 / END OF SWITCHED SHUNT DATA", "0 / END OF IMPEDANCE CORRECTION DATA", ""]
        else:
            for n in ("VSC DC LINE", "IMPEDANCE CORRECTION", "MULTI-TERMINAL DC", "MULTI-SECTION LINE", "ZONE", "INTER-AREA TRANSFER", "OWNER", "FACTS"):
                T.append("0 / END OF %s DATA" % n)
            T += sw + ["0 / END OF SWITCHED SHUNT DATA", "Q"]
        return "\n".join(T) + "\n"
