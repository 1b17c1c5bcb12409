import cmath, math, re
from collections import Counter
from vlib.core import *
from vlib import pfgen
from vlib.pfcheck import *

STATS = ["vmag.txt", "vmag_mm.txt", "vang.txt", "vang_mm.txt", "pgen.txt", "pgen_mm.txt", "qgen.txt", "qgen_mm.txt", "pflow.txt", "pflow_mm.txt", "qflow.txt", "qflow_mm.txt",
         "line_flt_cnt.txt", "perf_mm.txt", "perf_sum.txt"]


class A03(Check):
    id = "A03"
    targets = ["ca.x"]
    plan = {"quick": (30, [(1, 1), (2, 1), (4, 2), (3, 2), (6, 2), (4, 4), (5, 1), (6, 3), (5, 2)]), "thorough": (700, [(1, 1), (2, 1), (4, 2), (3, 2), (6, 2), (4, 4), (5, 1), (6, 3), (5, 2), (8, 1), (8, 3), (8, 4), (7, 2)])}
    rule = ("a case is one random network with a list of 1 to 12 contingencies (one or more circuits or generators, some cutting buses off, some beyond what can be solved) run by the contingency analysis program on three of "
            "several divisions into groups; distinct by network, list, processes and group size")
    assumptions = ["contingencies are named uniquely by names short enough for a file name", "a line or generator is listed once per contingency", "no contingency cuts the reference bus off"]

    def contingencies(self, r, g):
        on = [n for n, l in enumerate(g.lines) if l["st"]]
        gon = [n for n, q in enumerate(g.gens) if q["st"]]
        out = []
        for k in range(r.choice([1, 2, 4, 7, 12])):
            x = r.random()
            lo, go = [], []
            if x < 0.7:
                n = r.choice(on)
                y = r.random()
                if y < 0.2:
                    b = r.choice([b for b in g.live if b != g.root])
                    lo = [m for m in on if b in (g.lines[m]["f"], g.lines[m]["t"])][:4]
                elif y < 0.4:
                    lo = [m for m in on if {g.lines[m]["f"], g.lines[m]["t"]} == {g.lines[n]["f"], g.lines[n]["t"]}]
                elif y < 0.5:
                    lo = r.sample(on, min(len(on), r.randint(1, 3)))
                else:
                    lo = [n]
                r.shuffle(lo)
                rest = {b for m in on if m not in lo for b in (g.lines[m]["f"], g.lines[m]["t"])}
                if g.root not in rest:
                    continue
            elif gon:
                n = r.choice(gon)
                go = [m for m in gon if g.gens[m]["bus"] == g.gens[n]["bus"]] if r.random() < 0.5 else [n]
                if r.random() < 0.2:
                    go = sorted(set(go + r.sample(gon, min(2, len(gon)))))
            if lo or go:
                out.append(("CTG_%d%s" % (k + 1, r.choice(["", "x", "_longer-name.1"])), lo, go))
        r.shuffle(out)
        return out or [("ONLY", [on[0]], [])] if len(on) > 1 else out

    def xml(self, r, g, cont):
        t = ['<?xml version="1.0" encoding="utf-8"?>', "<ContingencyList><Contingency_analysis><Contingencies>"]
        for name, lo, go in cont:
            t.append("<Contingency><contingencyType>%s</contingencyType><contingencyName>%s</contingencyName>" % ("Line" if lo else "Generator", name))
            if lo:
                t.append("<contingencyLineBuses> %s </contingencyLineBuses>" % " ".join("%d %d" % (g.lines[m]["f"], g.lines[m]["t"]) for m in lo))
                t.append("<contingencyLineNames> %s</contingencyLineNames>" % " ".join(g.lines[m]["ckt"] for m in lo))
            else:
                t.append("<contingencyBuses> %s </contingencyBuses>" % " ".join(str(g.gens[m]["bus"]) for m in go))
                t.append("<contingencyGenerators> %s</contingencyGenerators>" % "  ".join(g.gens[m]["id"] for m in go))
            t.append("</Contingency>")
        return "\n".join(t + ["</Contingencies></Contingency_analysis></ContingencyList>"])

    def jobs(self):
        n, confs = self.plan[TIER]
        self.by = {}
        for c in range(n):
            r = random.Random(self.rng.getrandbits(60))
            g = pfgen.Grid(r, r.choice([8, 12, 14, 18, 24, 30]) if c else 55, r.choice([23, 33, 33, 34, 35]), r.choice(["near", "near", "exact"]), sign=1)
            g.cont = self.contingencies(r, g)
            if not g.cont:
                continue
            g.path = "g.raw"
            g.newton, g.solver, g.tol = False, r.choice([0, 1]), 1e-8
            g.prt = r.random() < 0.85
            g.qchk = r.random() < 0.25
            g.vlim = (r.choice([0.9, 0.97, 0.95]) + r.uniform(-0.01, 0.01), r.choice([1.05, 1.1, 1.06]) + r.uniform(-0.01, 0.01))
            if g.qchk:
                for q in g.gens:
                    if r.random() < 0.6:
                        q["qt"], q["qb"] = round(q["qg"] + r.uniform(2, 60), 2), round(q["qg"] - r.uniform(2, 60), 2)
            raw = g.file()
            cx = self.xml(r, g, g.cont)
            fit = [x for x in confs if len(g.buses) >= 3 * x[1]]
            for np, gs in r.sample(fit, min(3, len(fit))):
                s = "1" if g.solver == 0 or gs > 1 else "0"
                pre = ("<Contingency_analysis>%s<contingencyList>c.xml</contingencyList><groupSize>%d</groupSize><maxVoltage>%.8f</maxVoltage><minVoltage>%.8f</minVoltage>%s</Contingency_analysis>"
                       % ("<printCalcFiles>%s</printCalcFiles>" % r.choice(["true", " true ", "True"]) if g.prt and r.random() < 0.7 else "" if g.prt else "<printCalcFiles>false</printCalcFiles>", gs, g.vlim[1], g.vlim[0],
                          "<checkQLimit>true</checkQLimit>" if g.qchk else ""))
                d = deck(g, r, g.tol).replace("<Configuration>", "<Configuration>" + pre)
                j = Job("ca#%d.%d.%d" % (c, np, gs), "applications/contingency_analysis/ca.x", ["input.xml"], np, {"c%d" % c: g}, text=None, cwd_files={"g.raw": raw, "c.xml": cx, "input.xml": d}, timeout=120)
                j.cid, j.g, j.gs = "c%d" % c, g, gs
                yield j

    def case_text(self, job, case):
        return "".join("--- %s\n%s\n" % x for x in job.cwd_files.items())

    # ------------------------------------------------------------------ reading the program's files
    def table(self, txt, title):
        p = txt.find(title)
        if p < 0:
            return None
        rows = []
        for l in txt[p:].split("\n")[1:]:
            t = l.split()
            if not t or t[:2] in (["Bus", "Number"], ["Bus", "1"]):
                continue
            if not re.fullmatch(r"\d+", t[0]):
                break
            rows.append(t)
        return rows

    def judge(self, job, res):
        g = job.g
        w = self.one(job, g, res)
        if w:
            self.v(w[0], job.cid, "%d processes in groups of %d, v%d%s: %s" % (job.np, job.gs, g.ver, ", reactive limits" if g.qchk else "", w[1]), job)
        self.ok((job.cwd_files["g.raw"], job.cwd_files["c.xml"], job.np, job.gs), {"buses": len(g.buses), "contingencies": [(n, len(a), len(b)) for n, a, b in g.cont][:6], "processes": job.np, "group": job.gs})

    def one(self, job, g, res):
        nc = len(g.cont)
        ran = Counter(int(x) for x in re.findall(r"Executing task (\d+) on process \d+", res.stdout))
        who = {}
        for t, p in re.findall(r"Executing task (\d+) on process (\d+)", res.stdout):
            who.setdefault(int(t), []).append(int(p))
        for k in range(nc):
            ps = sorted(who.get(k, []))
            grp = {p // job.gs for p in ps}
            if len(grp) != 1 or len(ps) != min(job.gs, job.np - min(grp) * job.gs):
                return "once", "contingency %d executed by processes %s" % (k + 1, ps)
        if set(ran) - set(range(nc)):
            return "once", "contingencies %s executed, there are %d" % (sorted(ran), nc)
        self.stat("contingencies_executed", nc)
        self.stat("groups_of_processes", (job.np + job.gs - 1) // job.gs)
        outs = {f for f in res.files if f.endswith(".out")}
        want = {"%s.out" % n for n, _, _ in g.cont} if g.prt else set()
        if outs != want:
            return "files", "result files %s, expected %s" % (sorted(outs)[:20], sorted(want)[:20])
        if "success.txt" not in res.files:
            return "files", "no success.txt"
        lines = res.files["success.txt"].decode(errors="replace").split("\n")
        if lines and not lines[-1]:
            lines.pop()
        if len(lines) != nc:
            return "success", "success.txt has %d lines for %d contingencies" % (len(lines), nc)
        flags = []
        for k, l in enumerate(lines):
            m = re.fullmatch(r"contingency: (\d+) success: (true|false)(?: violation: (none|bus|branch|bus and branch))?", l)
            if not m or int(m.group(1)) != k + 1 or (m.group(2) == "true") != (m.group(3) is not None):
                return "success", "line %d of success.txt: %r" % (k + 1, l)
            flags.append((m.group(2) == "true", m.group(3)))
        self.by.setdefault(job.cid, []).append((job, flags, res.files))
        base = state(g)[0]
        ign = {b for b in g.buses if not g.vlim[0] < abs(g.V[b]) < g.vlim[1]}
        near = {b for b in g.buses if min(abs(abs(g.V[b]) - x) for x in g.vlim) < 1e-5}
        cols = []
        for k, (name, lo, go) in enumerate(g.cont):
            h, lone = state(g, lo, go)
            if not g.qchk:
                # lone buses at the file's start voltages
                V0 = {b: cmath.rect(g.vinit[b][0], math.radians(g.vinit[b][1])) for b in g.buses}
                if not hasattr(g, "ref"):
                    g.ref = {}
                if k not in g.ref:
                    g.ref[k] = newton(h, V0, lo, go) if self.joined(g, h, lo) and any(q["bus"] == g.root and q["st"] and n not in go for n, q in enumerate(g.gens)) else (None, 0)
                V, it = g.ref[k]
                if V is not None and it <= 7 and not flags[k][0]:
                    return "converge", "%s reported as divergent; Newton's method from the start values solves it in %d iterations" % (name, it)
            else:
                V = None
            self.stat("contingencies_solved" if flags[k][0] else "contingencies_divergent")
            if not g.prt:
                cols.append(None)
                continue
            txt = res.files[name + ".out"].decode(errors="replace")
            said = set(re.findall(r"\n(No violation|Bus Violation|Branch Violation|Divergent) for contingency %s\n" % re.escape(name), txt))
            other = re.findall(r"for contingency (\S+)", txt)
            need = {(False, None): {"Divergent"}, (True, "none"): {"No violation"}, (True, "bus"): {"Bus Violation"}, (True, "branch"): {"Branch Violation"}, (True, "bus and branch"): {"Bus Violation", "Branch Violation"}}[flags[k]]
            if said != need or set(other) != {name}:
                return "message", "%s.out says %s (for %s), success.txt says %s" % (name, sorted(said), sorted(set(other)), flags[k])
            if not flags[k][0]:
                cols.append(None)
                continue
            fl, ge, vo = [self.table(txt, x) for x in ("Branch Power Flow", "Generator Power", "Bus Voltages and Phase Angles")]
            if fl is None or ge is None or vo is None:
                return "tables", "%s.out lacks a table of results" % name
            w = self.solution(g, h, lone, name, lo, go, fl, ge, vo, V if V is not None and it <= 7 else None)
            if w:
                return w
            vm = {int(x[0]): float(x[2]) for x in vo}
            S = {(int(x[0]), int(x[1]), x[2]): complex(float(x[3]), float(x[4])) for x in fl}
            cols.append((vm, {int(x[0]): float(x[1]) for x in vo}, {(int(x[0]), x[1]): complex(float(x[2]), float(x[3])) for x in ge}, S))
            if not near and not g.qchk:
                bv = {b for b, m in vm.items() if b not in ign and b not in lone and (m > g.vlim[1] + 2e-6 or m < g.vlim[0] - 2e-6)}
                tight = {b for b, m in vm.items() if min(abs(m - x) for x in g.vlim) <= 2e-6}
                if not tight:
                    has = flags[k][1] in ("bus", "bus and branch")
                    if has != bool(bv):
                        return "class", "%s: violation class %s; voltages out of limits at buses %s (base case violators %s)" % (name, flags[k][1], sorted(bv)[:5], sorted(ign)[:5])
            ov, tight = set(), False
            for l in [l for n, l in enumerate(g.lines) if l["st"] and n not in lo and l["rate"][0] > 0]:
                kk = (l["f"], l["t"], l["ckt"]) if (l["f"], l["t"], l["ckt"]) in S else (l["t"], l["f"], l["ckt"])
                x = abs(S[kk]) / l["rate"][0]
                tight |= abs(x - 1) < 1e-6
                if x > 1:
                    ov.add(kk)
            if not tight:
                has = flags[k][1] in ("branch", "bus and branch")
                if has != bool(ov):
                    return "class", "%s: violation class %s; overloaded circuits %s" % (name, flags[k][1], sorted(ov)[:5])
            # lists of violations at the end of the file
            tail = re.sub(r"^[^\n]*\n\s*Bus Number[^\n]*\n(\s*\d+ [^\n]*\n)*", "", txt[txt.find("Bus Voltages and Phase"):])
            lb = {(int(m[0]), float(m[2])) for m in (l.split() for l in tail.split("\n")) if len(m) == 3 and m[0].isdigit()}
            cut = {b for b, d in h.buses.items() if d["type"] == 4}
            wb = {(b, m) for b, m in vm.items() if m > g.vlim[1] + 2e-6 or m < g.vlim[0] - 2e-6}
            if not any(min(abs(m - x) for x in g.vlim) <= 2e-6 for m in vm.values()) and {x[0] for x in wb} - cut != {x[0] for x in lb} - cut:
                return "list", "%s.out lists buses %s as out of limits, they are %s" % (name, sorted(x[0] for x in lb), sorted(x[0] for x in wb))
            ll = {(int(m[0]), int(m[1]), m[2]) for m in (l.split() for l in tail.split("\n")) if len(m) == 7 and m[0].isdigit()}
            if not tight and ll != ov:
                return "list", "%s.out lists circuits %s as overloaded, they are %s" % (name, sorted(ll), sorted(ov))
            self.stat("violation_classes_judged")
        return self.statistics(g, flags, cols, res.files)

    def joined(self, g, h, lo):
        """every bus that takes part is connected with the reference bus"""
        see, todo = {g.root}, [g.root]
        while todo:
            a = todo.pop()
            for n, l in enumerate(g.lines):
                if l["st"] and n not in lo and a in (l["f"], l["t"]):
                    b = l["t"] if a == l["f"] else l["f"]
                    if b not in see:
                        see.add(b)
                        todo.append(b)
        return all(b in see for b, d in h.buses.items() if d["type"] != 4)

    def solution(self, g, h, lone, name, lo, go, fl, ge, vo, V):
        w = once("bus", [int(x[0]) for x in vo if int(x[0]) not in lone], [b for b, d in h.buses.items() if d["type"] != 4])
        if w:
            return "tables", "%s.out: %s" % (name, w)
        U = {b: 0j for b in g.buses}
        for x in vo:
            U[int(x[0])] = cmath.rect(float(x[2]), math.radians(float(x[1])))
        if V is not None:
            for b, d in h.buses.items():
                if d["type"] != 4 and abs(U[b] - V[b]) > 3e-5:
                    return "solution", "%s: bus %d reported at %.6f angle %.6f, the solution is %.6f angle %.6f" % (name, b, abs(U[b]), math.degrees(cmath.phase(U[b])), abs(V[b]), math.degrees(cmath.phase(V[b])))
            self.stat("solutions_compared_with_newton")
        # balance within the rounding of the printed voltages
        Y = h.ybus(lo)
        eps = {b: 1e-7 for b in g.buses}
        for (i, j), y in Y.items():
            eps[i] += abs(y) * 2.5e-6
        S = h.inject(U, lo)
        gen = Counter()
        for x in ge:
            gen[int(x[0])] += complex(float(x[2]), float(x[3]))
        for b, d in h.buses.items():
            if d["type"] == 4:
                continue
            m = S[b] - (gen[b] - h.load(b)) / h.sbase
            e = eps[b] + 4e-6 / h.sbase
            if any(q["bus"] == b and q["st"] and n not in go for n, q in enumerate(h.gens)):
                pass
            elif gen[b] != 0 and d["type"] != 3:
                return "balance", "%s: bus %d has no generator in service, reported generation %s" % (name, b, gen[b])
            if d["type"] == 3 and not any(q["bus"] == b and q["st"] and n not in go for n, q in enumerate(h.gens)):
                continue
            if abs(m.real) > e or abs(m.imag) > e:
                return "balance", "%s: bus %d does not balance: network %s, generation %s, load %s" % (name, b, S[b] * h.sbase, gen[b], h.load(b))
            self.stat("balances_judged")
            on = [q for n, q in enumerate(h.gens) if q["bus"] == b and q["st"] and n not in go]
            if d["type"] == 2 and on and abs(abs(U[b]) - on[-1]["vs"]) > 1.5e-6:
                lim = [sum(q["qt"] for q in on), sum(q["qb"] for q in on)]
                if not g.qchk:
                    return "setpoint", "%s: bus %d regulates its voltage to %.6f, reported %.6f" % (name, b, on[-1]["vs"], abs(U[b]))
                if min(abs(gen[b].imag - x) for x in lim) > 1e-5 * (1 + abs(gen[b].imag)):
                    return "qlimit", "%s: bus %d is off its set point %.6f (%.6f) though its reactive power %.6f is at neither limit %s" % (name, b, on[-1]["vs"], abs(U[b]), gen[b].imag, lim)
                self.stat("buses_at_reactive_limit")
        active = {frozenset((l["f"], l["t"])) for l in g.lines if l["st"]}
        w = once("circuit", [(frozenset((int(x[0]), int(x[1]))), x[2]) for x in fl], [(frozenset((l["f"], l["t"])), l["ckt"]) for l in g.lines if frozenset((l["f"], l["t"])) in active])
        if w:
            return "tables", "%s.out: %s" % (name, w)
        w = once("generator", [(int(x[0]), x[1]) for x in ge], [(q["bus"], q["id"]) for q in g.gens])
        if w:
            return "tables", "%s.out: %s" % (name, w)
        idx = {(l["f"], l["t"], l["ckt"]): (n, l) for n, l in enumerate(g.lines)}
        for x in fl:
            a, b, c = int(x[0]), int(x[1]), x[2]
            n, l = idx.get((a, b, c)) or idx[b, a, c]
            s = g.flow(l, U)[0 if a == l["f"] else 1] if l["st"] and n not in lo and h.buses[a]["type"] != 4 and h.buses[b]["type"] != 4 else 0j
            e = 2e-6 + sum(abs(y) for y in g.stamp(l)) * g.sbase * 2.5e-6
            if abs(s.real - float(x[3])) > e or abs(s.imag - float(x[4])) > e:
                return "flow", "%s: circuit %d-%d %s: reported %s %s, must be %s" % (name, a, b, c, x[3], x[4], s)
        self.stat("flows_judged", len(fl))
        return None

    # ------------------------------------------------------------------ statistics over all contingencies
    def statistics(self, g, flags, cols, files):
        miss = [f for f in STATS if f not in files]
        if miss:
            return "files", "statistics files missing: %s" % miss
        T = {f: [l.split() for l in files[f].decode(errors="replace").split("\n") if l.strip()] for f in STATS}
        good = [k for k, f in enumerate(flags) if f[0]]
        known = all(cols[k] is not None for k in good)
        live = [b for b in g.order]
        act = {frozenset((l["f"], l["t"])) for l in g.lines if l["st"]}
        rowsets = {"vang": [(b,) for b in g.order], "pgen": [(q["bus"], q["id"]) for q in g.gens], "vmag": [(b,) for b in g.order if g.buses[b]["type"] in (1, 3) or (g.buses[b]["type"] == 2 and not any(q["bus"] == b and q["st"] for q in g.gens))]}
        rowsets["qgen"] = rowsets["pgen"]
        fkeys = [(frozenset((l["f"], l["t"])), l["ckt"]) for l in g.lines if frozenset((l["f"], l["t"])) in act]
        for q, nk in (("vmag", 1), ("vang", 1), ("pgen", 2), ("qgen", 2), ("pflow", 3), ("qflow", 3), ("perf", 3)):
            A, M = T.get(q + ".txt"), T[q + "_mm.txt"]
            for X in (A, M):
                if X is None:
                    continue
                keys = [tuple([int(x[1])] + x[2:3]) if nk == 2 else (int(x[1]),) if nk == 1 else (frozenset((int(x[1]), int(x[2]))), x[3]) for x in X]
                w = once(q + " row", keys, rowsets.get(q, fkeys))
                if w:
                    return "rows", w
            for n, m in enumerate(M):
                base, mn, mx, dmn, dmx = [float(x) for x in m[1 + nk:6 + nk]]
                jm, jx = int(m[-2]), int(m[-1])
                tolr = lambda x: 1e-7 + 2e-8 * abs(x)
                if not (mn <= base + tolr(base) and base - tolr(base) <= mx and abs(dmn - (mn - base)) <= tolr(mn) + tolr(base) and abs(dmx - (mx - base)) <= tolr(mx) + tolr(base)):
                    return "minmax", "%s_mm.txt row %s is inconsistent" % (q, m)
                for j in (jm, jx):
                    if j and (j - 1 >= len(flags) or not flags[j - 1][0]):
                        return "minmax", "%s_mm.txt: extreme value taken from contingency %d, which was not solved" % (q, j)
                if A is not None and good:
                    av = float(A[n][1 + nk])
                    if not (mn - tolr(mn) <= av <= mx + tolr(mx)):
                        return "mean", "%s.txt: mean %s outside of %s .. %s (row %s)" % (q, av, mn, mx, A[n])
                k = (int(m[1]),) if nk == 1 else (int(m[1]), m[2]) if nk == 2 else (int(m[1]), int(m[2]), m[3])
                bv = self.basevalue(g, q, k)
                if bv is not None and not g.qchk and abs(bv - base) > 2e-4 + 1e-5 * abs(bv):
                    return "base", "%s_mm.txt: base value of %s is %s, must be %s" % (q, k, base, bv)
                if not known:
                    continue
                vals = [base]
                skip = False
                for c in good:
                    vm, va, ge, S = cols[c]
                    if q in ("vmag", "vang"):
                        d = vm if q == "vmag" else va
                        if k[0] not in d:
                            skip = True
                            break
                        vals.append(d[k[0]])
                    elif q in ("pgen", "qgen"):
                        vals.append(ge[k].real if q == "pgen" else ge[k].imag)
                    elif q in ("pflow", "qflow"):
                        vals.append(S[k].real if q == "pflow" else S[k].imag)
                    else:
                        l = next(l for l in g.lines if {l["f"], l["t"]} == {k[0], k[1]} and l["ckt"] == k[2])
                        vals.append((abs(S[k]) / l["rate"][0]) ** 2 if l["rate"][0] > 0 else 0.0)
                if skip:
                    continue
                e = 3e-6 if q != "perf" else 1e-6
                e += 3e-8 * max(abs(x) for x in vals)
                if q == "perf":
                    e += 1e-6 * max(abs(x) for x in vals)
                    l = next(l for l in g.lines if {l["f"], l["t"]} == {k[0], k[1]} and l["ckt"] == k[2])
                    if l["rate"][0] > 0:
                        e += 4e-6 / l["rate"][0] * (1 + max(abs(x) for x in vals))
                if abs(min(vals) - mn) > e or abs(max(vals) - mx) > e:
                    return "minmax", "%s_mm.txt: %s has minimum %s maximum %s, the result files give %s %s" % (q, k, mn, mx, min(vals), max(vals))
                for j, want in ((jm, mn), (jx, mx)):
                    have = base if j == 0 else vals[1 + good.index(j - 1)]
                    if abs(have - want) > e:
                        return "minmax", "%s_mm.txt: %s: extreme %s attributed to contingency %d whose value is %s" % (q, k, want, j, have)
                if A is not None:
                    nn = len(vals)
                    mean = sum(vals) / nn
                    rms = math.sqrt(sum((x - mean) ** 2 for x in vals) / (nn - 1)) if nn > 1 else 0.0
                    dev = math.sqrt(sum((x - base) ** 2 for x in vals[1:]) / (nn - 1)) if nn > 1 else 0.0
                    a = [float(x) for x in A[n][1 + nk:4 + nk]]
                    e2 = 4e-6 + 1e-6 * max(abs(x) for x in vals)
                    if abs(a[0] - mean) > e or abs(a[1] - rms) > e2 or abs(a[2] - dev) > e2:
                        return "mean", "%s.txt: %s has mean %s deviations %s %s, the result files give %s %s %s" % (q, k, a[0], a[1], a[2], mean, rms, dev)
                self.stat("statistics_rows_recomputed")
        if known:
            for x in T["line_flt_cnt.txt"]:
                k = (int(x[1]), int(x[2]), x[3])
                l = next(l for l in g.lines if {l["f"], l["t"]} == {k[0], k[1]} and l["ckt"] == k[2])
                ra = l["rate"][0]
                vals = [abs(cols[c][3][k]) / ra if ra > 0 else 0 for c in good]
                b = self.basevalue(g, "perf", k)
                if ra > 0 and b is not None and not g.qchk and min(abs(x - 1) for x in vals + [math.sqrt(b)]) > 1e-4:
                    n = sum(x > 1 for x in vals) + (b > 1)
                    if n != int(x[4]):
                        return "count", "line_flt_cnt.txt: circuit %s overloaded %s times, the result files give %d" % (k, x[4], n)
            if len(T["perf_sum.txt"]) != len(flags) + 1:
                return "rows", "perf_sum.txt has %d rows for %d contingencies and the base case" % (len(T["perf_sum.txt"]), len(flags))
            for n, x in enumerate(T["perf_sum.txt"]):
                if n and not flags[n - 1][0] and float(x[1]) != 0.0:
                    return "sum", "perf_sum.txt: contingency %d was not solved, performance index %s" % (n, x[1])
                if n and flags[n - 1][0]:
                    s, rel = 0.0, 0.0
                    for k, v in cols[n - 1][3].items():
                        l = next(l for l in g.lines if {l["f"], l["t"]} == {k[0], k[1]} and l["ckt"] == k[2])
                        if l["rate"][0] > 0:
                            s += (abs(v) / l["rate"][0]) ** 2
                            rel += 4e-6 * (abs(v) + 1e-6) / l["rate"][0] ** 2
                    if abs(s - float(x[1])) > rel + 1e-6 * (1 + s) or abs(float(x[2]) - float(x[1]) / max(1, len(fkeys))) > 1e-7 * (1 + s):
                        return "sum", "perf_sum.txt: contingency %d: performance index %s average %s, the result files give %.8g" % (n, x[1], x[2], s)
        return None

    def basevalue(self, g, q, k):
        if g.buses[k[0]]["type"] == 4 or (q in ("pflow", "qflow", "perf") and g.buses[k[1]]["type"] == 4):
            return None
        if q == "vmag":
            return abs(g.V[k[0]])
        if q in ("pflow", "qflow", "perf"):
            n, l = next((n, l) for n, l in enumerate(g.lines) if {l["f"], l["t"]} == {k[0], k[1]} and l["ckt"] == k[2])
            s = g.flow(l, g.V)[0 if k[0] == l["f"] else 1] if l["st"] else 0j
            return s.real if q == "pflow" else s.imag if q == "qflow" else (abs(s) / l["rate"][0]) ** 2 if l["rate"][0] > 0 else 0.0
        return None

    def finish(self):
        for cid, l in self.by.items():
            j0, f0, r0 = l[0]
            for j, f, r in l[1:]:
                self.stat("divisions_compared")
                for k, (a, b) in enumerate(zip(f0, f)):
                    ref = getattr(j.g, "ref", {}).get(k)
                    sure = ref and ref[0] is not None and ref[1] <= 7
                    if a != b and (sure or a[0] == b[0]) and not self.tight(j.g, k, ref):
                        self.v("division", cid, "contingency %s: %s with %d processes in groups of %d, %s with %d in groups of %d" % (j.g.cont[k][0], a, j0.np, j0.gs, b, j.np, j.gs), j)
                        return

    def tight(self, g, k, ref):
        if not ref or ref[0] is None:
            return True
        V = ref[0]
        if any(min(abs(abs(v) - x) for x in g.vlim) < 1e-5 for v in V.values()) or any(min(abs(abs(v) - x) for x in g.vlim) < 1e-5 for v in g.V.values()):
            return True
        return any(l["rate"][0] > 0 and abs(max(abs(s) for s in g.flow(l, V)) / l["rate"][0] - 1) < 1e-4 or l["rate"][0] > 0 and abs(min(abs(s) for s in g.flow(l, V)) / l["rate"][0] - 1) < 1e-4 for l in g.lines)
