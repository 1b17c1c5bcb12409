import cmath, math
from collections import Counter
from vlib.core import *
from vlib import pfgen
from vlib.pfcheck import *


def tag(c):
    return ("%-2s" % c).replace(" ", "_")


class A02(Check):
    id = "A02"
    targets = ["vh_pf"]
    plan = {"quick": [(1, 110, 0), (2, 40, 0), (3, 20, 0), (4, 20, 0), (4, 15, 2), (6, 12, 3)],
            "thorough": [(1, 2500, 0), (2, 800, 0), (3, 400, 0), (4, 400, 0), (4, 300, 2), (6, 300, 3), (8, 200, 0), (8, 200, 4)]}
    rule = ("a case is one random network as in A01 on which one power flow module executes a random sequence of 5 to 40 operations: contingencies of one or more circuits or generators set, solved, checked and undone "
            "(also such that cut buses or load pockets off), voltage and overload checks of the system, of an area and of listed lines, ignoring and restoring violations, reactive limits checked, enforced and "
            "cleared, generation and load scaled and reset, totals; distinct by file, operations, processes and group size")
    assumptions = ["loads are constant power", "no contingency cuts the reference bus off", "overload is judged by the power entering a circuit at the end listed first for its branch",
                   "the voltage of a bus that is cut off is not judged"]

    def ops(self, r, g):
        o = []
        solve = r.choice(["solve"] * 4 + ["nl"])
        lim = r.choice([(0.97, 1.05), (0.95, 1.06), (0.98, 1.04), (0.9, 1.1)])
        o.append("vlim:%.6f:%.6f" % (lim[0] + r.uniform(-0.01, 0.01), lim[1] + r.uniform(-0.01, 0.01)))
        if r.random() < 0.3:
            o.append("rateb:1")
        k = [0]

        def run():
            o.append(solve)
            k[0] += 1
            o.append("dump:%d" % k[0])

        def checks(n):
            for _ in range(n):
                x = r.random()
                if x < 0.35:
                    o.append(r.choice(["vchk", "vchk:%d" % r.randint(1, 3)]))
                elif x < 0.7:
                    o.append(r.choice(["lchk", "lchk:%d" % r.randint(1, 3)]))
                elif x < 0.85 and g.lines:
                    ls = [r.choice(g.lines) for _ in range(r.randint(1, 4))]
                    o.append("lchks:" + ":".join("%d:%d:%s" % ((l["f"], l["t"], tag(l["ckt"])))for l in ls))
                elif x < 0.95:
                    o.append("fails")
                else:
                    o.append("loadtot:%d:%d" % (r.randint(1, 3), r.choice([-1, 1, 2, 3])))
        def totals():
            if r.random() < 0.5:
                o.append("loadtot:%d:%d" % (r.randint(1, 3), r.choice([-1, 0, 1, 2, 3])))
                o.append("margins:%d:%d" % (r.randint(1, 3), r.choice([-1, 0, 1, 2, 3])))
        totals()
        run()
        checks(r.randint(0, 3))
        if r.random() < 0.4:
            o.append("ignv")
        if r.random() < 0.4:
            o.append("ignl")
        for _ in range(r.randint(1, 4)):
            x = r.random()
            on = [n for n, l in enumerate(g.lines) if l["st"]]
            gon = [n for n, q in enumerate(g.gens) if q["st"]]
            if x < 0.6:
                n = r.choice(on)
                if r.random() < 0.3:            # cut a bus off: all of its circuits
                    b = r.choice([b for b in g.live if b != g.root])
                    pick = [m for m in on if b in (g.lines[m]["f"], g.lines[m]["t"])]
                    if len(pick) > 4:
                        pick = pick[:1]
                elif r.random() < 0.3:          # all circuits of a pair
                    pick = [m for m in on if {g.lines[m]["f"], g.lines[m]["t"]} == {g.lines[n]["f"], g.lines[n]["t"]}]
                else:
                    pick = [n]
                rest = {b for m in on if m not in pick for b in (g.lines[m]["f"], g.lines[m]["t"])}
                if g.root not in rest:
                    continue
                parts = []
                for m in pick:
                    f, t = g.lines[m]["f"], g.lines[m]["t"]
                    parts.append("%d:%d:%s" % (f, t, tag(g.lines[m]["ckt"])))
                ev = "set:L:" + ":".join(parts)
            elif x < 0.8 and gon:
                n = r.choice(gon)
                pick = [m for m in gon if g.gens[m]["bus"] == g.gens[n]["bus"]] if r.random() < 0.5 else [n]
                ev = "set:G:" + ":".join("%d:%s" % (g.gens[m]["bus"], tag(g.gens[m]["id"])) for m in pick)
            else:
                ev = None
                y = r.random()
                if y < 0.5:
                    o.append("scalel:%.4f:%d:%d" % (r.uniform(0.9, 1.08), r.randint(1, 3), r.choice([-1, 0, 1, 2, 3])))
                else:
                    o.append("scaleg:%.4f:%d:%d" % (r.uniform(-0.05, 0.05), r.randint(1, 3), r.choice([-1, 0, 1, 2])))
                if r.random() < 0.5:
                    o.append("reset")
                run()
                checks(1)
                o.append("resetp")
                totals()
                continue
            o.append("reset")
            o.append(ev)
            run()
            checks(r.randint(1, 3))
            if solve == "solve" and r.random() < 0.5:
                o.append(r.choice(["qchk", "qchk", "qchk:%d" % r.randint(1, 3)]))
                run()
                checks(r.randint(0, 2))
                if r.random() < 0.5:
                    o.append("qchk")
                    run()
                o.append("qclr")
            if r.random() < 0.2:
                o.append("fails")
            o.append("unset")
            if r.random() < 0.2:
                o.append(r.choice(["clrv", "clrl", "ignv", "ignl"]))
        if r.random() < 0.3:
            o.append("reload")
        o.append("reset")
        run()
        checks(2)
        o.append("fails")
        return o

    def jobs(self):
        for np, n, gs in self.plan[TIER]:
            left, j = n, 0
            while left > 0:
                m = min(left, 10)
                left -= m
                j += 1
                files, lines, cases = {}, [], {}
                for c in range(m):
                    r = random.Random(self.rng.getrandbits(60))
                    ver = r.choice([23, 33, 33, 34, 35])
                    per = gs if gs else np
                    nb = r.choice([3, 5, 8, 14, 20, 30]) if per == 1 else 3 * per + r.randint(3, 25)
                    g = pfgen.Grid(r, nb, ver, r.choice(["near", "near", "exact"]), sign=1)
                    for q in g.gens:
                        if r.random() < 0.6:        # limits close enough to matter
                            q["qt"], q["qb"] = round(q["qg"] + r.uniform(2, 60), 2), round(q["qg"] - r.uniform(2, 60), 2)
                    cid = "c%d" % c
                    g.path = "d/%s.raw" % cid
                    g.newton = r.random() < 0.5
                    g.solver = r.choice([0, 0, 1]) if per > 1 else 0
                    g.tol = r.choice([1e-6, 1e-8])
                    g.qlim = r.random() < 0.1
                    g.ops = self.ops(r, g) if not g.qlim else ["solve", "dump:1", "vlim:0.5:1.5", "vchk", "reset"]
                    files["d/%s.raw" % cid] = g.file()
                    files["d/%s.xml" % cid] = deck(g, r, g.tol, "<qlim>1</qlim>" if g.qlim else "")
                    cases[cid] = g
                    lines.append("case %s d/%s.xml %d %s" % (cid, cid, gs, " ".join(g.ops)))
                files["cases2.txt"] = "\n".join(lines) + "\n"
                yield Job("sec#%d.%d.%d" % (np, gs, j), "vh/vh_pf", ["@D/cases2.txt", "@D/out"], np, cases, text="", cwd_files=files, timeout=240)

    def case_text(self, job, case):
        g = job.cases.get(case)
        return " ".join(g.ops) + "\n" + job.cwd_files["d/%s.xml" % case] + "\n" + job.cwd_files["d/%s.raw" % case] if g else ""

    def judge(self, job, res):
        by = {}
        for rk, recs in enumerate(res.ranks):
            for x in recs:
                if "case" in x and "grp" in x:
                    by.setdefault(x["case"], {}).setdefault((x.get("grp", 0), rk), []).append(x)
        for cid, g in job.cases.items():
            ranks = {k: v for k, v in by.get(cid, {}).items()}
            w = self.one(job, cid, g, ranks)
            if w:
                self.v(w[0], cid, "v%d: %s" % (g.ver, w[1]), job)
            self.ok((job.cwd_files["d/%s.raw" % cid], tuple(g.ops), job.np), {"buses": len(g.buses), "lines": len(g.lines), "operations": g.ops[:12], "processes": job.np})

    # ------------------------------------------------------------------
    def one(self, job, cid, g, ranks):
        for k, recs in ranks.items():
            for x in recs:
                if x["t"] == "threw":
                    return "threw", "process %d threw: %s" % (k[1], x["what"])
        if not ranks:
            return "missing", "no process reported anything"
        seqs = {k: [x for x in v if x["t"] == "op"] for k, v in ranks.items()}
        for k, s in seqs.items():
            if [x["op"] for x in s] != g.ops:
                return "missing", "process %d did not report every operation" % k[1]
        res = {}
        bus = {}
        for k, v in ranks.items():
            for x in v:
                if x["t"] == "res":
                    res[k[0], x["label"]] = x
                elif x["t"] == "bus":
                    bus.setdefault((k[0], x["label"]), []).append((k[1], x))
        # every process must get the same answers
        ref = next(iter(seqs.values()))
        for k, s in seqs.items():
            for a, b in zip(ref, s):
                if a["op"].split(":")[0] in ("solve", "nl", "vchk", "lchk", "lchks", "qchk") and (a["ret"] != b["ret"] or a.get("vals") != b.get("vals")):
                    return "agree", "processes disagree about %s: %s %s and %s %s" % (a["op"], a["ret"], a.get("vals", ""), b["ret"], b.get("vals", ""))
                if a["op"] == "fails" and sorted(a["vals"]) != sorted(b["vals"]):
                    return "agree", "processes disagree about the list of violations: %s and %s" % (sorted(a["vals"]), sorted(b["vals"]))
        for grp in sorted({k[0] for k in ranks}):
            w = self.group(job, g, ref, {l: x for (gr, l), x in res.items() if gr == grp}, {l: x for (gr, l), x in bus.items() if gr == grp})
            if w:
                return w[0], "group %d: %s" % (grp, w[1])
        return None

    def group(self, job, g, ops, res, bus):
        lines_out, gens_out = set(), set()
        conv = {}                           # bus -> side of the reactive limit it was set to
        gens, loads = [dict(q) for q in g.gens], [dict(q) for q in g.loads]
        vmin, vmax, rateb = -1e9, 1e9, 0
        ignv, ignl = set(), set()
        cur = None                          # (clone, V, printed flows) of the latest successful solution that is still current
        seen = Counter()                    # violations the checks since the last solution must have recorded
        known = True
        good = None
        base = None
        tol = lambda o: max(1e-5 if o == "nl" else 0, 1.05 * g.tol) + 2e-11
        last = "solve"
        done = []
        for x in ops:
            a = x["op"].split(":")
            done.append(x["op"])
            at = "after %s" % " ".join(done[-6:])
            if a[0] in ("solve", "nl"):
                good, last, cur = x["ret"], a[0], None
                seen, known = Counter(), True
                self.stat("solutions" if good else "not_solved")
                if not good and not lines_out and not gens_out and not conv and gens == g.gens and loads == g.loads and base is None and not g.qlim:
                    return "converge", "the network itself does not converge from a start near its solution"
            elif a[0] == "dump":
                if not good:
                    continue
                if g.qlim:
                    w = self.qlim(g, res[a[1]], bus[a[1]], tol(last))
                    if w:
                        return w
                    continue
                h, lone = state(g, lines_out, gens_out, conv, gens, loads)
                st = {}
                w = judge(h, res[a[1]], tol(last), tuple(lines_out), tuple(gens_out), stats=st)
                if w:
                    return "result", "%s %s (out: %s %s)" % (w, at, [(g.lines[n]["f"], g.lines[n]["t"], g.lines[n]["ckt"]) for n in lines_out], [(g.gens[n]["bus"], g.gens[n]["id"]) for n in gens_out])
                self.smax("worst_mismatch_1e12", int(st.get("worst", 0) * 1e12))
                v, gen, fl = parse(res[a[1]])
                V = {q[0]: cmath.rect(q[2], math.radians(q[1])) for q in v}
                cur = (h, V, fl, lone)
                if lone:
                    self.stat("solutions_with_a_bus_cut_off")
                w = self.flags(g, h, v, bus[a[1]], gens_out, conv, at)
                if w:
                    return w
                if not lines_out and not gens_out and not conv and gens == g.gens and loads == g.loads:
                    if base is None:
                        base = V
                    else:
                        for b in V:
                            if g.buses[b]["type"] != 4 and abs(V[b] - base[b]) > 1e-3 + 1e3 * tol(last):
                                return "undo", "bus %d: voltage %.9g %.9g in the base case, %.9g %.9g %s although everything was undone" % ((b,) + cmath.polar(base[b]) + cmath.polar(V[b]) + (at,))
                        self.stat("base_case_found_again")
            elif a[0] == "set":
                if a[1] == "L":
                    for k in range(2, len(a), 3):
                        lines_out |= {n for n, l in enumerate(g.lines) if {l["f"], l["t"]} == {int(a[k]), int(a[k + 1])} and l["ckt"] == a[k + 2].strip("_")}
                else:
                    for k in range(2, len(a), 2):
                        gens_out |= {n for n, q in enumerate(g.gens) if q["bus"] == int(a[k]) and q["id"] == a[k + 1].strip("_")}
                cur = None
                if job.np == 1 and not x["ret"]:
                    return "set", "contingency %s reported as not found in the network" % x["op"]
            elif a[0] == "unset":
                lines_out, gens_out = set(), set()
                cur = None
            elif a[0] in ("reset", "reload"):
                if a[0] == "reload":
                    gens, loads, conv = [dict(q) for q in g.gens], [dict(q) for q in g.loads], {}
                    ignv, ignl = None, None
                cur = None
            elif a[0] == "scalel":
                for q in loads:
                    b = g.buses[q["bus"]]
                    if q["st"] and b["area"] == int(a[2]) and (int(a[3]) <= 0 or b["zone"] == int(a[3])):
                        for k in ("pl", "ql", "ip", "iq", "yp", "yq"):
                            q[k] *= float(a[1])
                cur = None
            elif a[0] == "scaleg":
                f = float(a[1])
                for n, q in enumerate(gens):
                    b = g.buses[q["bus"]]
                    if q["st"] and n not in gens_out and b["area"] == int(a[2]) and (int(a[3]) <= 0 or b["zone"] == int(a[3])):
                        q["pg"] += f * (q["pt"] - q["pg"]) if f > 0 else f * (q["pg"] - q["pb"])
                cur = None
            elif a[0] == "resetp":
                gens, loads = [dict(q) for q in g.gens], [dict(q) for q in g.loads]
                cur = None
            elif a[0] == "vlim":
                vmin, vmax = float(a[1]), float(a[2])
            elif a[0] == "rateb":
                rateb = int(a[1])
            elif a[0] in ("loadtot", "margins"):
                if loads != g.loads or gens != g.gens or gens_out:
                    continue
                sel = {b for b, d in g.buses.items() if d["area"] == int(a[1]) and (int(a[2]) <= 0 or d["zone"] == int(a[2]))}
                if a[0] == "loadtot":
                    want = [sum(q["pl"] + q["ip"] + q["yp"] for q in g.loads if q["st"] and q["bus"] in sel)]
                    have = [x["val"]]
                else:
                    on = [q for q in g.gens if q["st"] and q["bus"] in sel]
                    want = [sum(q[k] for q in on) for k in ("pg", "pb", "pt")]
                    have = x["val"]
                for w, y in zip(want, have):
                    if abs(w - y) > 1e-6 * (1 + abs(w)):
                        return "totals", "%s gives %s, must be %s" % (x["op"], have, want)
                self.stat("totals_compared")
            elif a[0] == "clrv":
                ignv = set()
            elif a[0] == "clrl":
                ignl = set()
            elif a[0] == "qclr":
                conv = {}
                cur = None
            elif a[0] in ("ignv", "vchk") or a[0] in ("ignl", "lchk", "lchks", "qchk"):
                if cur is None:
                    if a[0] == "ignv":
                        ignv = None
                    elif a[0] == "ignl":
                        ignl = None
                    elif a[0] in ("vchk", "lchk"):
                        known = False
                    elif a[0] == "qchk":        # nothing to judge it by: follow the program
                        return None
                    continue
                h, V, fl, lone = cur
                if a[0] in ("ignv", "vchk"):
                    bad, unsure = set(), set()
                    for b, d in h.buses.items():
                        m = abs(V[b])
                        if d["type"] == 4 or min(abs(m - vmin), abs(m - vmax)) < 1e-7:
                            unsure.add(b)
                        elif m < vmin or m > vmax:
                            bad.add(b)
                    if a[0] == "ignv":
                        if ignv is not None:
                            ignv = ignv | bad
                            self.unsure = getattr(self, "unsure", set())
                            if any(b in unsure and h.buses[b]["type"] != 4 for b in unsure):
                                ignv = None
                        continue
                    if ignv is None:
                        known = False
                        continue
                    sel = {b for b in h.buses if len(a) < 2 or h.buses[b]["area"] == int(a[1])}
                    must = (bad & sel) - ignv
                    may = (unsure & sel) - ignv
                    if must and x["ret"]:
                        return "voltage", "%s reports no violation, but bus %d has voltage %.9g, limits %.9g to %.9g (%s)" % (x["op"], min(must), abs(V[min(must)]), vmin, vmax, at)
                    if not must and not may and not x["ret"]:
                        return "voltage", "%s reports a violation, but no bus it covers and does not ignore is outside %.9g to %.9g (%s)" % (x["op"], vmin, vmax, at)
                    self.stat("voltage_checks_with_violation" if must else "voltage_checks_without")
                    for b in must:
                        seen["     Bus voltage violation on bus %d" % b] += 1
                    if may:
                        known = False
                elif a[0] in ("ignl", "lchk", "lchks"):
                    bad, unsure = set(), set()
                    for q in fl:
                        n = next(n for n, l in enumerate(g.lines) if {l["f"], l["t"]} == {q[0], q[1]} and l["ckt"] == q[2])
                        l = g.lines[n]
                        rate = l["rate"][1] if rateb and a[0] != "ignl" else l["rate"][0]
                        on = l["st"] and n not in lines_out and h.buses[l["f"]]["type"] != 4 and h.buses[l["t"]]["type"] != 4
                        s = abs(h.flow(l, V)[0 if q[0] == l["f"] else 1]) if on else 0.0
                        if rate > 0 and abs(s / rate - 1) < 1e-6:
                            unsure.add((q[0], q[1], q[2]))
                        elif rate > 0 and s > rate:
                            bad.add((q[0], q[1], q[2]))
                    if a[0] == "ignl":
                        if ignl is not None:
                            ignl = ignl | bad
                            if unsure:
                                ignl = None
                        continue
                    if ignl is None:
                        known = known and a[0] == "lchks"
                        continue
                    if a[0] == "lchks":
                        for k in range(1, len(a), 3):
                            key = {(int(a[k]), int(a[k + 1]), a[k + 2].strip("_")), (int(a[k + 1]), int(a[k]), a[k + 2].strip("_"))}
                            is_bad = bool(key & (bad - ignl))
                            if not key & unsure and bool(x["vals"][k // 3]) != (not is_bad):
                                return "overload", "%s: circuit %s reported as %s, but it %s overloaded (%s)" % (x["op"], a[k:k + 3], "free of violations" if x["vals"][k // 3] else "violated", "is" if is_bad else "is not", at)
                        if not unsure and x["ret"] != all(x["vals"]):
                            return "overload", "%s returns %s for %s" % (x["op"], x["ret"], x["vals"])
                        self.stat("listed_lines_checked", len(x["vals"]))
                        continue
                    sel = {k for k in {(q[0], q[1], q[2]) for q in fl} if len(a) < 2 or int(a[1]) in (g.buses[k[0]]["area"], g.buses[k[1]]["area"])}
                    must = (bad & sel) - ignl
                    may = (unsure & sel) - ignl
                    if must and x["ret"]:
                        return "overload", "%s reports no violation, but circuit %s is overloaded (%s)" % (x["op"], min(must), at)
                    if not must and not may and not x["ret"]:
                        return "overload", "%s reports a violation, but no circuit it covers and does not ignore is overloaded (%s)" % (x["op"], at)
                    self.stat("overload_checks_with_violation" if must else "overload_checks_without")
                    for k in must:
                        seen["     Branch overload violation on branch [%d,%d] for line %-2s" % k] += 1
                    if may:
                        known = False
                else:
                    need = demand(h, V, tuple(lines_out), tuple(gens_out))
                    sel = {b for b in need if len(a) < 2 or h.buses[b]["area"] == int(a[1])}
                    eps = (1e3 * tol(last)) * h.sbase + 1e-4
                    if any(min(abs(need[b][0] - need[b][1]), abs(need[b][0] - need[b][2])) < eps for b in sel):
                        return None
                    hit = {b: (1 if need[b][0] > need[b][2] else -1) for b in sel if need[b][0] > need[b][2] or need[b][0] < need[b][1]}
                    if x["ret"] != (not hit):
                        return "qlimit", "%s returns %s; buses beyond their reactive limits: %s (%s)" % (x["op"], x["ret"], sorted(hit), at)
                    self.stat("reactive_checks_with_violation" if hit else "reactive_checks_without")
                    conv.update(hit)
                    if hit:
                        cur = None
            elif a[0] == "fails":
                if not known:
                    continue
                have = Counter(s.rstrip() for s in x["vals"])
                want = Counter({k.rstrip(): v for k, v in seen.items()})
                if have != want:
                    miss, extra = want - have, have - want
                    return "list", "list of violations: missing %s, not expected %s (%s)" % (dict(miss), dict(extra), at)
                self.stat("violations_listed", sum(want.values()))
        return None

    def flags(self, g, h, v, copies, gens_out, conv, at):
        live = {b for b, d in g.buses.items() if d["type"] == 2 and any(q["st"] and n not in gens_out for n, q in enumerate(g.gens) if q["bus"] == b)}
        orig = {b for b, d in g.buses.items() if d["type"] == 2 and any(q["st"] for q in g.gens if q["bus"] == b)}
        for rk, y in copies:
            b = y["n"]
            want = b in live and b not in conv
            if bool(y["pv"]) != want:
                return "regulate", "process %d: its copy of bus %d %s, but it %s (%s)" % (rk, b, "regulates voltage" if y["pv"] else "does not regulate voltage", "must not" if not want else "must", at)
        for b, a, m, use, chg in v:
            want = (b in live and b not in conv) != (b in orig)
            if bool(chg) != want:
                return "regulate", "bus %d reported as %s its type (%s)" % (b, "changing" if chg else "keeping", at)
        return None

    def qlim(self, g, rec, copies, tol):
        """a solution found with reactive limits enforced: every bus regulates within its limits or sits at one of them"""
        pv = {y["n"]: bool(y["pv"]) for rk, y in copies if y["act"]}
        for rk, y in copies:
            if bool(y["pv"]) != pv.get(y["n"]):
                return "regulate", "copies of bus %d disagree whether it regulates its voltage" % y["n"]
        v, gen, fl = parse(rec)
        V = {q[0]: cmath.rect(q[2], math.radians(q[1])) for q in v}
        h, lone = state(g)
        need = demand(h, V, (), ())
        conv = {}
        eps = (1e3 * tol) * g.sbase + 1e-4
        for b, (q, lo, hi) in need.items():
            if pv[b]:
                if q > hi + eps or q < lo - eps:
                    return "qlimit", "bus %d regulates its voltage with %.6g MVAr, limits %.6g to %.6g" % (b, q, lo, hi)
            else:
                if min(abs(q - lo), abs(q - hi)) > eps:
                    return "qlimit", "bus %d does not regulate its voltage but delivers %.6g MVAr, limits %.6g to %.6g" % (b, q, lo, hi)
                conv[b] = 1 if abs(q - hi) < abs(q - lo) else -1
        self.stat("buses_at_a_limit", len(conv))
        h, lone = state(g, converted=conv)
        w = judge(h, rec, tol)
        return ("result", w) if w else None
