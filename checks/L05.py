from checks.L03 import *

THETA = {"-ts_type~beuler": 1.0, "-ts_type~cn": 0.5, "-ts_type~theta~-ts_theta_theta~0.7": 0.7, "-ts_type~theta~-ts_theta_theta~0.6~-ts_theta_endpoint": 0.6}


class L05(L03):
    id = "L05"
    mode = "dae"
    plan = {"quick": [(1, 60), (2, 50), (3, 50), (4, 40), (5, 20), (8, 20)],
            "thorough": [(1, 250), (2, 400), (3, 400), (4, 400), (5, 250), (6, 250), (7, 150), (8, 250)]}
    rule = ("a case is a system of 1..16 linear differential and algebraic equations with random forcing, distributed at random, one of four one-step methods with fixed or adaptive steps, "
            "1 to 3 consecutive solves with a random step limit, and for most cases up to three event objects per process with random levels, directions, terminal flags and actions, called "
            "through the interface given to PETSc after random steps, or one event value left to PETSc to locate; the scheme is recomputed for every step recorded and events are looked for in the states recorded; distinct by (seed, processes)")
    assumptions = ["a direct linear solver and tight Newton tolerances", "events with values within 1e-4 of zero may or may not count as crossed"]
    chunk = 10

    def common(self, r, np):
        ev = r.choice([0, 1, 1, 2, 3])
        par = {"dens": r.choice([0, 20, 50]), "algpct": r.choice([0, 0, 20, 40]), "events": ev, "termpct": r.choice([0, 0, 10, 30]), "ownj": r.randrange(2), "evdrive": r.choice([0, 1, 1]), "hooks": r.randrange(2),
               "t0": r.randrange(5), "dt": r.choice([5, 20, 50, 90]), "len": r.choice([1, 3, 7, 13]), "maxsteps": r.choice([4, 9, 40, 1000, 1000, 1000]), "segments": r.randint(1, 3)}
        th = r.choice(list(THETA))
        adapt = r.random() < 0.3
        if np > 1:
            par["evdrive"] = 1
        if ev and not par["evdrive"]:
            par["dt"], par["len"], adapt = r.choice([1, 2, 4]), r.choice([1, 2, 4]), False
        opt = th + "~-ksp_type~preonly~-pc_type~lu~-pc_factor_mat_solver_type~mumps~-snes_rtol~1e-12~-snes_atol~1e-13~-snes_stol~1e-15"
        if adapt:
            opt += "~-ts_rtol~1e-3~-ts_atol~1e-3"
        cfg = ["Adaptive=" + r.choice(["true"] if adapt else ["false", "false", "0"]), "PETScOptions=" + opt]
        if not adapt and cfg[0] == "Adaptive=0":
            cfg[0] = "Adaptive=false"
        if r.random() < 0.25:
            cfg.append("PETScPrefix=" + r.choice(["px", "qq_"]))
        par["adapt"] = int(adapt)
        par["th"] = th
        par["cfg"] = ";".join(cfg)
        return par

    def layout(self, sz, r, lo, hi):
        l = super().layout(sz, r, lo, hi)
        return [max(1, v) for v in l] if r.random() < 0.999 and self.needrows else l

    needrows = True

    def judge(self, job, res):
        for case, color, g, seqs in self.groups(job, res):
            sim = Sim(g.seed, g.size, g.lay, g.real)
            n = sim.n[0]
            par = g.par
            dens, th = int(par["dens"]), THETA[par["th"]]
            A = [[0j] * n for _ in range(n)]
            for i in range(n):
                s = 0.0
                for j in range(n):
                    if i != j and sim.inpat(0, dens, i, j):
                        A[i][j] = sim.val(11, i, j)
                        s += abs(A[i][j])
                A[i][i] = -(0.3 + 1.3 * s)
            m = [1 if sim.h(24, i) % 100 >= int(par["algpct"]) else 0 for i in range(n)]
            base = "%s, %s, %d equations %s, dt %s ms, %s processes" % (par["cfg"], "real" if g.real else "complex", n, g.lay[0], par["dt"], g.size)
            cut = [sum(g.lay[0][:p]) for p in range(g.size + 1)]
            events = [(p, q) for p, l in enumerate(seqs) for q in l if q["t"] == "event"]
            loc = [[q for q in l if q["t"] != "event"] for l in seqs]
            # the same sequence of calls everywhere, apart from the handlers
            marks = [[(q["t"], q.get("step"), q.get("time")) for q in l if q["t"] in ("start", "post", "final", "pre", "end")] for l in loc]
            if any(k != marks[0] for k in marks):
                self.v("agree", case, "%s: processes see different steps" % base, job)
                continue
            ends = [[q for q in l if q["t"] == "end"] for l in loc]
            if any([(q["steps"], q["threw"] == "", q["terminated"], q["time"]) for q in l] != [(q["steps"], q["threw"] == "", q["terminated"], q["time"]) for q in ends[0]] for l in ends):
                self.v("agree", case, "%s: processes report different outcomes" % base, job)
                continue
            # states on all processes put together, with the handler calls before each
            states, drives = [], []
            cur = [0] * g.size
            N = sum(1 for q in loc[0] if q["t"] in ("start", "post", "final"))
            for k in range(N):
                st, hs, dr = [], [], []
                for p in range(g.size):
                    while loc[p][cur[p]]["t"] not in ("start", "post", "final"):
                        if loc[p][cur[p]]["t"] == "h":
                            hs.append((p, loc[p][cur[p]]))
                        if loc[p][cur[p]]["t"] == "drive":
                            dr.append((p, loc[p][cur[p]]))
                        cur[p] += 1
                    st.append(loc[p][cur[p]])
                    cur[p] += 1
                cat = lambda key: [z for q in st for z in self.cx(q[key], g.real)]
                states.append((st[0]["t"], st[0]["step"], st[0]["time"], cat("x"), cat("b"), cat("f0"), cat("f1"), hs))
                drives.append(dr)
            self.steps(case, job, g, base, A, m, th, events, states, drives, ends[0], loc[0], cut)
            self.ok((g.seed, g.size), {"processes": g.size, "equations": n, "configuration": par["cfg"], "events": sum(len(q["comp"]) for _, q in events), "states": N})

    def steps(self, case, job, g, base, A, m, th, events, states, drives, ends, log, cut):
        par = g.par
        n = len(A)
        rhs = lambda x, f0, f1, t: [sum(a * z for a, z in zip(r, x)) + f0[i] + f1[i] * t for i, r in enumerate(A)]
        driven = int(par["events"]) and (int(par["evdrive"]) or g.size > 1)
        real = int(par["events"]) and not driven
        dt0, last = 1e-3 * int(par["dt"]), None
        seg = {}
        for k, (typ, step, t, x, b, f0, f1, hs) in enumerate(states):
            what = "%s: %s %d, time %.9g" % (base, typ, k, t)
            sg = seg.setdefault(step, {"n": 0, "term": False, "t": None, "t0": t, "long": 0.0})
            if typ == "start":
                if last is not None and (abs(t - last[0]) > 1e-12 or x != last[1]):
                    self.v("continue", case, "%s: the state changed between solves" % what, job)
                last = (t, x, f0, f1)
                sg["t"] = t
                if hs:
                    self.v("handled", case, "%s: an event is handled outside a solve" % what, job)
                continue
            if typ == "final":
                if any(abs(p - q) > 1e-12 * max(1, abs(q)) for p, q in zip(x, last[1])):
                    self.v("final", case, "%s: the vector given to initialize is not the state after the last step" % what, job)
                last = (t, x, f0, f1)
                continue
            t0, x0, g0, g1 = last
            h = t - t0
            if sg["term"]:
                self.v("terminate", case, "%s: a step after a terminating event" % what, job)
            if not h > 0:
                self.v("time", case, "%s: time goes from %.12g to %.12g" % (what, t0, t), job)
                return
            self.stat("steps")
            sg["n"] += 1
            sg["t"] = t
            sg["long"] = max(sg["long"], h)
            r1, r0 = rhs(b, g0, g1, t), rhs(x0, g0, g1, t0)
            big = max([1.0] + [abs(z) for z in b + x0])
            amax = max(sum(abs(z) for z in r) for r in A) + 1 / h
            err = max(abs(m[i] * (b[i] - x0[i]) / h - th * r1[i] - (1 - th) * r0[i]) for i in range(n))
            self.smax("largest_step_defect", err / (big * amax))
            if err > 1e-8 * big * amax:
                self.v("step", case, "%s: the step of %g leaves the equations of the method unsatisfied by %g" % (what, h, err), job)
            # events
            nf0, nf1, nx = list(g0), list(g1), list(b)
            seen = {}
            for p, q in hs:
                if (p, q["ev"]) in seen:
                    self.v("handled", case, "%s: event object %d of process %d handled twice" % (what, q["ev"], p), job)
                seen[(p, q["ev"])] = q
                if abs(q["time"] - t) > 1e-12:
                    self.v("handled", case, "%s: event handled with time %.12g" % (what, q["time"]), job)
            if driven:
                asked = {}
                if [p for p, q in drives[k]] != list(range(g.size)):
                    self.v("registered", case, "%s: the events were not given to the integrator on processes other than %s" % (what, [p for p, q in drives[k]]), job)
                    return
                for p, q in drives[k]:
                    ev = [e for pp, e in events if pp == p]
                    if q["dir"] != sum((e["dir"] for e in ev), []) or q["term"] != sum((e["term"] for e in ev), []):
                        self.v("registered", case, "%s: process %d registers directions %s and flags %s for %s" % (what, p, q["dir"], q["term"], [(e["dir"], e["term"]) for e in ev]), job)
                    want = [complex(b[cut[p] + c]).real - l for e in ev for c, l in zip(e["comp"], e["level"])]
                    if len(want) != len(q["values"]) or any(abs(u - v) > 1e-12 * max(1, abs(u)) for u, v in zip(want, q["values"])):
                        self.v("values", case, "%s: process %d gives the integrator the event values %s, the state says %s" % (what, p, q["values"], want), job)
                    self.stat("event_values_compared", len(want))
                    off = 0
                    for e in ev:
                        t3 = [int(off + j in q["trig"]) for j in range(len(e["comp"]))]
                        off += len(t3)
                        if any(t3):
                            asked[(p, e["ev"])] = t3
                got = {a: list(map(int, q["trig"])) for a, q in seen.items()}
                if got != asked:
                    self.v("handled", case, "%s: triggered %s, the handlers were told %s" % (what, asked, got), job)
                    return
            for p, e in events:
                q = seen.get((p, e["ev"]))
                trig = q["trig"] if q else [0] * len(e["comp"])
                if len(trig) != len(e["comp"]):
                    self.v("handled", case, "%s: event object with %d values handled with %d" % (what, len(e["comp"]), len(trig)), job)
                    continue
                for j, c in enumerate(e["comp"]):
                    i = cut[p] + c
                    before, after = (x0[i] - e["level"][j]), (b[i] - e["level"][j])
                    before, after = complex(before).real, complex(after).real
                    d = e["dir"][j]
                    match = (before > 0 if d < 0 else before < 0 if d > 0 else True)
                    name = "value %d of event %d on process %d (direction %d)" % (j, e["ev"], p, d)
                    if trig[j] and driven:
                        self.stat("events_driven")
                    elif trig[j]:
                        self.stat("events_handled")
                        self.smax("largest_value_at_event", abs(after))
                        # (PETSc 3.19 locates crossings in the direction not asked for as well)
                        if abs(after) > 1e-4:
                            self.v("handled", case, "%s: %s handled, its value is %g" % (what, name, after), job)
                    if trig[j]:
                        if e["term"][j] and not driven:
                            sg["term"] = True
                        if e["act"][j] == 0:
                            nf0[i] = -nf0[i]
                        elif e["act"][j] == 1 and m[i]:
                            nx[i] += 0.4 if d < 0 else -0.4
                        else:
                            nf1[i] = 0
                    elif not driven and match and abs(before) > 1e-4 and abs(after) > 1e-4 and (before > 0) != (after > 0):
                        self.v("missed", case, "%s: %s goes from %g to %g unhandled" % (what, name, before, after), job)
            if any(abs(p - q) > 1e-12 * max(1, abs(q)) for p, q in zip(x, nx)) or any(abs(p - q) > 1e-14 for p, q in zip(f0 + f1, nf0 + nf1)):
                self.v("action", case, "%s: the state after the step does not reflect the handled events" % what, job)
            if hs and any(any(q["trig"]) for _, q in hs):
                self.stat("steps_with_events")
            last = (t, x, f0, f1)
        for s, q in enumerate(ends):
            what = "%s: solve %d to %.9g with at most %s steps" % (base, s, q["want"], par["maxsteps"])
            sg = seg[s]
            self.stat("solves")
            if q["threw"]:
                self.v("failed", case, "%s: %s" % (what, q["threw"]), job)
                continue
            mx = int(par["maxsteps"])
            if q["steps"] != sg["n"]:
                self.v("count", case, "%s: reports %d steps, %d were taken" % (what, q["steps"], sg["n"]), job)
            if sg["n"] > mx:
                self.v("count", case, "%s: took %d steps" % (what, sg["n"]), job)
            if bool(q["terminated"]) != sg["term"]:
                self.v("terminate", case, "%s: terminated() is %s" % (what, q["terminated"]), job)
            if abs(q["time"] - sg["t"]) > 1e-12:
                self.v("endtime", case, "%s: reports time %.12g, the last step ended at %.12g" % (what, q["time"], sg["t"]), job)
            if not sg["term"] and sg["n"] < mx and abs(sg["t"] - q["want"]) > 1e-9:
                self.v("endtime", case, "%s: ends at %.12g after %d steps" % (what, sg["t"], sg["n"]), job)
            if sg["t"] > q["want"] + 1e-9:
                self.v("endtime", case, "%s: goes on to %.12g" % (what, sg["t"]), job)
            if not int(par["adapt"]) and sg["long"] > dt0 * 1.2:
                self.v("size", case, "%s: a step of %.12g, %.12g was asked for" % (what, sg["long"], dt0), job)
            if sg["term"]:
                self.stat("solves_terminated")
        # the hook called before each step
        if int(par["hooks"]):
            prev, pres = None, []
            for q in log:
                if q["t"] == "pre":
                    pres.append(q["time"])
                elif q["t"] == "start":
                    prev, pres = q["time"], []
                elif q["t"] == "post":
                    if not pres or any(abs(t - prev) > 1e-12 for t in pres):
                        self.v("prestep", case, "%s: before the step from %.12g the hook was called at %s" % (base, prev, pres), job)
                    prev, pres = q["time"], []
        elif any(q["t"] == "pre" for q in log):
            self.v("prestep", case, "%s: hook called that was not set" % base, job)
