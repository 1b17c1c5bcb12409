from vlib.utilcheck import *

BIG = 1000.0


class K01(UtilCheck):
    id = "K01"
    kind = "blk"
    exe = "vh/vh_blk"
    targets = ("vh_blk",)
    plan = {"quick": [(1, 1500)], "thorough": [(1, 30000)]}
    chunk = 150
    rule = ("a case is one control block (filter, lead-lag, PI, integrator, each with no, state and output, or rate limits; gain limiter with rate limits, slope, dead band, piecewise linear function, gates) "
            "with random parameters, initialised at random and fed up to 60 random inputs in random order of calls; every output and state is compared with the definition; distinct by parameters")
    assumptions = ["lower limits lie below upper ones", "the corrector follows a predictor of the same step"]

    def f(self, *c):
        return self.rng.choice(c)

    def num(self, m):
        r = self.rng
        return round(r.uniform(-m, m), r.choice([0, 2, 6]))

    def lim(self, m):
        a, b = sorted((self.num(m), self.num(m)))
        return [a, b + 0.05]

    def gen(self, cid, np, files):
        r = self.rng
        k = self.f("filter", "leadlag", "pi", "integ", "filter", "leadlag", "pi", "gain", "slope", "dead", "piece", "piece", "lv", "hv")
        ops, exp = [], []

        def op(*t):
            ops.append(line(*[repr(x) if isinstance(x, float) else x for x in t]))
        if k in ("filter", "leadlag", "pi", "integ"):
            T = self.f(0.01, 0.05, 0.3, 1.0, 5.0, 20.0)
            if k == "filter":
                p = [self.num(5) or 1.0, T]
                a, b = (p[1], 1.0), (0.0, p[0])
            elif k == "leadlag":
                p = [self.f(0.0, T, 0.02, 0.5, 3.0), T]
                a, b = (p[1], 1.0), (p[0], 1.0)
            elif k == "pi":
                p = [self.num(3), self.f(0.0, 0.1, 2.0, 10.0)]
                a, b = (1.0, 0.0), (p[0], p[1])
            else:
                p = [T]
                a, b = (T, 0.0), (0.0, 1.0)
            v = r.randrange(3) if k != "integ" else r.randrange(2)
            X, D, Y = [-BIG, BIG], [-BIG, BIG], [-BIG, BIG]
            if v and k == "integ":
                X = self.lim(2)
                p += X
            elif v == 1:
                X, Y = self.lim(2), self.lim(2)
                p += X + Y
            elif v == 2:
                X, D, Y = self.lim(2), [-abs(self.num(2)) - 0.1, abs(self.num(2)) + 0.1], self.lim(2)
                p += X + D + Y
            op("new", k, *p)
            exp.append(None)
            A, B, Dd = -a[1] / a[0], b[1] / a[0] - a[1] * b[0] / (a[0] * a[0]), b[0] / a[0]
            how = self.f("initu", "inity", "init")
            u = self.num(1.5)
            gain = b[1] / a[1] if a[1] else None
            if gain is None:
                x = self.num(1.5)
                if how == "initu" or (how == "inity" and k == "never"):
                    # no equilibrium but u = 0; the state starts at zero
                    x, u = 0.0, 0.0 if k == "pi" else u
                    op("initu", u)
                    exp.append((Dd * u, 0.0))
                elif how == "inity":
                    op("inity", x)
                    exp.append((0.0, x))
                else:
                    op("init", 0.0, x)
                    exp.append((None, x))
            else:
                y = gain * u
                x = y - Dd * u
                if how == "initu":
                    op("initu", u)
                    exp.append((y, x))
                elif how == "inity":
                    op("inity", y)
                    exp.append((u, x))
                else:
                    op("init", u, y)
                    exp.append((None, x))
            if r.random() < 0.3:
                w = self.num(2)
                op("out", w)
                exp.append((min(max(x + Dd * w, Y[0]), Y[1]), None))
            dt = self.f(0.001, 0.004, 0.01, 0.02)
            over = r.choice([0, 0, 0, 6, 8])       # limits given with the call
            amp = r.choice([0.5, 2.0, 20.0])
            w = self.num(amp)
            for s in range(r.choice([3, 10, 30])):
                if r.random() < 0.5:
                    w = self.num(amp)
                w1 = w + self.num(0.3)
                xl, dl, yl, extra = X, D, Y, []
                if over:
                    if s == 0 or r.random() < 0.2:
                        ox, od, oy = self.lim(2), [-abs(self.num(2)) - 0.1, abs(self.num(2)) + 0.1], self.lim(2)
                    xl, yl = ox, oy
                    extra = ox + oy
                    if over == 8:
                        dl, extra = od, ox + od + oy
                cl = lambda q, l: max(l[0], min(q, l[1]))
                if r.random() < 0.2:
                    op("step", 0, 0, w, dt, *extra)
                    exp.append((cl(x + Dd * w, yl), None))
                d0 = cl(A * x + B * w, dl)
                xh = cl(x + dt * d0, xl)
                op("step", 0, 1, w, dt, *extra)
                exp.append((cl(x + Dd * w, yl), xh))
                if r.random() < 0.2:
                    op("step", 1, 0, w1, dt, *extra)
                    exp.append((cl(xh + Dd * w1, yl), None))
                d1 = cl(0.5 * (d0 + A * xh + B * w1), dl)
                x2 = cl(x + dt * d1, xl)
                op("step", 1, 1, w1, dt, *extra)
                exp.append((cl(xh + Dd * w1, yl), x2))
                x = x2
        elif k == "gain":
            K, l = self.num(4), self.lim(3)
            rated = r.random() < 0.5
            d = [-abs(self.num(3)), abs(self.num(3))]
            op("new", k, K, *(l + (d if rated else [])))
            exp.append(None)
            prev = None
            for _ in range(30):
                u = self.num(3)
                cl = lambda q: max(l[0], min(q, l[1]))
                if rated and r.random() < 0.7:
                    dt, up = self.f(0.01, 0.1, 1.0), r.randrange(2)
                    y = cl(K * u)
                    if prev is None:
                        prev = y
                    y = max(prev + d[0] * dt, min(y, prev + d[1] * dt))
                    if up:
                        prev = y
                    op("rate", u, dt, up)
                    exp.append((y, None))
                elif r.random() < 0.2:
                    l = self.lim(3)
                    op("out", u, *l)
                    exp.append((cl(K * u), None))
                else:
                    op("out", u)
                    exp.append((cl(K * u), None))
        elif k in ("slope", "piece"):
            n = 2 if k == "slope" else r.randint(2, 5)
            for rep in range(1 if k == "slope" else r.choice([1, 1, 2])):
                us = []
                while len(us) < n or any(b - a < 0.05 for a, b in zip(us, us[1:])):
                    us = sorted(self.num(3) for _ in range(n))
                ys = [self.num(3) for _ in range(n)]
                mono = r.random() < 0.5
                if mono:
                    ys = sorted(ys)
                    if any(b - a < 1e-3 for a, b in zip(ys, ys[1:])):
                        mono = False
                pts = list(zip(us, ys))
                if k == "slope":
                    op("new", k, *(us + ys + ys))
                    exp.append(None)
                else:
                    if rep == 0:
                        op("new", k)
                        exp.append(None)
                    if r.random() < 0.35:
                        pts = pts[::-1]
                    op("points", *([p[0] for p in pts] + [p[1] for p in pts]))
                    exp.append(None)
                srt = sorted(pts)

                def val(u):
                    if u <= srt[0][0]:
                        return srt[0][1]
                    for (a, b), (c, d) in zip(srt, srt[1:]):
                        if u <= c:
                            return b + (d - b) / (c - a) * (u - a)
                    return srt[-1][1]
                for _ in range(20):
                    u = self.f(self.num(4), self.f(*us))
                    op("out", u)
                    exp.append((val(u), "slope"))
                if k == "piece" and mono:
                    for _ in range(8):
                        u = r.uniform(us[0], us[-1])
                        op("inv", val(u))
                        exp.append((u, "slope"))
                    op("inv", ys[0] - 1.0)
                    exp.append((us[0], "slope"))
                    op("inv", ys[-1] + 1.0)
                    exp.append((us[-1], "slope"))
                n = r.randint(2, 5) if k == "piece" else n
        elif k == "dead":
            a, b = self.lim(1)
            op("new", k, a, b)
            exp.append(None)
            for _ in range(25):
                u = self.num(2)
                if min(abs(u - a), abs(u - b)) < 2e-6:
                    continue
                op("out", u)
                exp.append((0.0 if a < u < b else u, None))
        else:
            a = self.num(1)
            op("new", k, a)
            exp.append(None)
            for _ in range(25):
                u = self.num(2)
                op("out", u)
                exp.append((min(u, a) if k == "lv" else max(u, a), None))
        return ops, (k, exp)

    def judge(self, job, res):
        for case, (k, exp), ops, seqs in self.logs(job, res):
            log = seqs[0]
            for i, (e, q) in enumerate(zip(exp, log)):
                if e is None:
                    continue
                what = "%s: after %d calls: %s" % (ops[0].strip(), i, ops[i].strip())
                y, x = e
                tol = 1e-10
                if x == "slope":
                    x, tol = None, 3e-3      # points closer than 1e-5 to a corner count as the corner
                self.stat("values_compared")
                if y is not None and not abs(q["y"] - y) <= tol * max(1, abs(y)):
                    self.v("output:" + k, case, "%s gives %.12g, definition: %.12g" % (what, q["y"], y), job)
                    break
                if x is not None and not abs(q["x"] - x) <= 1e-10 * max(1, abs(x)):
                    self.v("state:" + k, case, "%s leaves the state %.12g, definition: %.12g" % (what, q["x"], x), job)
                    break
            if len(log) != len(exp):
                raise HarnessError("log of %s has %d of %d records" % (case, len(log), len(exp)))
            self.stat("blocks:" + k)
            self.ok((ops[0], len(ops)), {"block": ops[0].strip(), "calls": len(ops)})
