import cmath, math
from vlib.core import *
from vlib import pfgen
from vlib.pfcheck import *
from checks.A04 import A04, Swing, LU, W0


class Limit(Exception):
    """the initial state violates a limit of the model"""


class Lag:
    """K/(1+sT), state limited"""

    def __init__(self, K, T, lo=-1e9, hi=1e9):
        self.K, self.T, self.lo, self.hi = K, T, lo, hi

    def slope(self, x, u):
        d = (self.K * u - x) / self.T
        if (x >= self.hi and d > 0) or (x <= self.lo and d < 0):
            return 0.0
        if abs(d) > 900:         # the blocks of the library take 1000 as the largest rate
            raise Limit
        return d


def clip(x, lo, hi):
    return lo if x < lo else hi if x > hi else x


def leadlag(x, u, T1, T2):
    """(1+sT1)/(1+sT2): output and slope of the state x (x = u in equilibrium)"""
    if not T2:
        return u, 0.0
    return x + T1 / T2 * (u - x), (u - x) / T2


class Dc1:
    """EXDC1 and IEEET1: regulator, exciter with saturation, rate feedback, optional transducer and lead-lag"""

    def __init__(self, r, name):
        self.name = name
        self.TR = r.choice([0.0, round(r.uniform(0.02, 0.06), 3)])
        self.KA, self.TA = round(r.uniform(10, 60), 2), r.choice([0.0, round(r.uniform(0.03, 0.2), 3), round(r.uniform(0.03, 0.2), 3)])
        self.TB = self.TC = 0.0
        if name == "EXDC1" and r.random() < 0.6:
            self.TB, self.TC = round(r.uniform(0.1, 1.0), 3), round(r.uniform(0.05, 1.0), 3)
        self.KE, self.TE = r.choice([1.0, round(r.uniform(0.8, 1.2), 3)]), round(r.uniform(0.2, 1.0), 3)
        self.KF, self.TF = round(r.uniform(0.02, 0.08), 3), round(r.uniform(0.4, 1.5), 3)
        self.E1, self.E2 = round(r.uniform(2.2, 3.2), 2), round(r.uniform(3.6, 4.6), 2)
        self.S1 = r.choice([0.0, round(r.uniform(0.03, 0.2), 3)])
        self.S2 = round(self.S1 * r.uniform(2, 4), 3) if self.S1 else 0.0
        self.hi = r.choice([20.0, 20.0, round(r.uniform(3.5, 6), 2)])
        self.lo = -self.hi
        if self.S1:
            q = math.sqrt(self.S1 * self.E1 / (self.S2 * self.E2))
            self.A = (self.E1 - q * self.E2) / (1 - q)
            self.B = self.S1 * self.E1 / (self.E1 - self.A) ** 2

    def text(self):
        t = [self.TR, self.KA, self.TA] + ([self.TB, self.TC] if self.name == "EXDC1" else []) + [self.hi, self.lo, self.KE, self.TE, self.KF, self.TF, 0, self.E1, self.S1, self.E2, self.S2]
        return ", ".join("%g" % x for x in t)

    def sat(self, e):
        return self.B * (e - self.A) ** 2 if self.S1 and e > self.A else 0.0

    def init(self, E, V, ifd):
        vr = self.KE * E + self.sat(E)
        if not self.lo * 0.95 < vr < self.hi * 0.95:
            raise Limit
        u = vr / self.KA
        self.ref = u + V
        return [V, u, vr, E, E]

    def slopes(self, x, V, ifd):
        vm = x[0] if self.TR else V
        e = x[3]
        u = self.ref - vm - self.KF / self.TF * (e - x[4])
        if self.TB:
            y, dl = leadlag(x[1], u, self.TC, self.TB)
        else:
            y, dl = u, 0.0
        if self.TA:
            vr, dv = x[2], Lag(self.KA, self.TA, self.lo, self.hi).slope(x[2], y)
        else:
            vr, dv = clip(self.KA * y, self.lo, self.hi), 0.0
        return e, [(V - vm) / self.TR if self.TR else 0.0, dl, dv, (vr - self.KE * e - self.sat(e)) / self.TE, (e - x[4]) / self.TF]

    def box(self, x):
        x[2] = clip(x[2], self.lo, self.hi)


class Sexs:
    def __init__(self, r, name):
        self.TB = round(r.uniform(2, 10), 2)
        self.ratio = round(r.uniform(0.1, 0.5), 3)
        self.K, self.TE = round(r.uniform(20, 100), 1), r.choice([0.0, round(r.uniform(0.03, 0.3), 3), round(r.uniform(0.03, 0.3), 3)])
        self.lo, self.hi = 0.0, r.choice([15.0, 15.0, round(r.uniform(3.5, 6), 2)])

    def text(self):
        return ", ".join("%g" % x for x in (self.ratio, self.TB, self.K, self.TE, self.lo, self.hi))

    def init(self, E, V, ifd):
        if not 0.02 < E < self.hi * 0.95:
            raise Limit
        self.ref = V + E / self.K
        return [E / self.K, E]

    def slopes(self, x, V, ifd):
        y, d = leadlag(x[0], self.ref - V, self.ratio * self.TB, self.TB)
        if self.TE:
            return x[1], [d, Lag(self.K, self.TE, self.lo, self.hi).slope(x[1], y)]
        return clip(self.K * y, self.lo, self.hi), [d, 0.0]

    def box(self, x):
        x[1] = clip(x[1], self.lo, self.hi)


class St1a:
    """ESST1A without over- and underexcitation limiters and stabiliser"""

    def __init__(self, r, name):
        self.TR = r.choice([0.0, round(r.uniform(0.02, 0.06), 3)])
        self.vi = r.choice([99.0, 99.0, round(r.uniform(0.1, 0.3), 2)])
        self.TC, self.TB = round(r.uniform(0.2, 2), 3), round(r.uniform(1, 8), 3)
        self.TC1, self.TB1 = r.choice([(1.0, 1.0), (round(r.uniform(0.1, 1), 3), round(r.uniform(0.1, 1), 3)), (0.0, 0.0)])
        if r.random() < 0.2:
            self.TC = self.TB = 0.0
        self.KA, self.TA = round(r.uniform(20, 120), 1), r.choice([0.0, round(r.uniform(0.03, 0.2), 3), round(r.uniform(0.03, 0.2), 3)])
        self.va = 99.0
        self.vr = r.choice([99.0, round(r.uniform(5, 8), 2)])
        self.KC = r.choice([0.0, round(r.uniform(0.02, 0.1), 3)])
        self.KLR, self.ILR = r.choice([(0.0, 3.0), (round(r.uniform(1, 5), 2), round(r.uniform(2, 4), 2))])
        self.KF, self.TF = r.choice([(0.0, 1.0), (0.0, 0.0), (round(r.uniform(0.01, 0.05), 3), round(r.uniform(0.5, 1.5), 3))])
        if self.KF:                                                   # the point the feedback is taken from only matters with limiters
            self.KLR, self.vr, self.KC = 0.0, 99.0, 0.0

    def text(self):
        return "1, 1, " + ", ".join("%g" % x for x in (self.TR, self.vi, -self.vi, self.TC, self.TB, self.TC1, self.TB1, self.KA, self.TA, self.va, -self.va, self.vr, -self.vr, self.KC, self.KF, self.TF, self.KLR, self.ILR))

    def out(self, va, V, ifd):
        return clip(va - max(0.0, self.KLR * (ifd - self.ILR)), -self.vr * V, self.vr * V - self.KC * ifd)

    def init(self, E, V, ifd):
        va = E + max(0.0, self.KLR * (ifd - self.ILR))
        u = va / self.KA
        if abs(u) > self.vi * 0.9 or E > 0.9 * (self.vr * V - self.KC * ifd) or abs(ifd - self.ILR) < 0.02:
            raise Limit
        self.ref = V + u
        return [V, u, u, va, E]

    def slopes(self, x, V, ifd):
        vm = x[0] if self.TR else V
        va = x[3]
        vf = self.KF / self.TF * (va - x[4]) if self.KF else 0.0
        if self.KF and (not self.TA or abs(va) >= self.vr * V):         # no state between, or behind a limiter
            raise Limit
        y, d1 = leadlag(x[1], clip(self.ref - vm - vf, -self.vi, self.vi), self.TC, self.TB)
        y, d2 = leadlag(x[2], y, self.TC1, self.TB1)
        if self.TA:
            d3 = (self.KA * y - va) / self.TA
            if abs(d3) > 900:
                raise Limit
        else:
            va, d3 = self.KA * y, 0.0
        return self.out(va, V, ifd), [(V - vm) / self.TR if self.TR else 0.0, d1, d2, d3, (va - x[4]) / (self.TF or 1.0)]

    def box(self, x):
        pass


class Tgov:
    def __init__(self, r, name):
        self.R, self.T1, self.T2, self.T3, self.Dt = round(r.uniform(0.02, 0.1), 3), round(r.uniform(0.05, 0.8), 3), round(r.uniform(0.3, 3), 3), round(r.uniform(1, 10), 3), r.choice([0.0, round(r.uniform(0, 0.5), 2)])
        self.hi, self.lo = r.choice([3.0, 3.0, round(r.uniform(0.8, 1.1), 3)]), r.choice([-1.0, 0.0])

    def text(self):
        return ", ".join("%g" % x for x in (self.R, self.T1, self.hi, self.lo, self.T2, self.T3, self.Dt))

    def init(self, P):
        if not self.lo - 1e-12 <= P < self.hi * 0.97:
            raise Limit
        self.ref = P * self.R
        return [P, P]

    def slopes(self, x, w):
        d = Lag(1.0, self.T1, self.lo, self.hi).slope(x[0], (self.ref - w) / self.R)
        y, e = leadlag(x[1], x[0], self.T2, self.T3)
        return y - self.Dt * w, [d, e]

    def box(self, x):
        x[0] = clip(x[0], self.lo, self.hi)


class Gast:
    def __init__(self, r, name):
        self.R, self.T1, self.T2, self.T3 = round(r.uniform(0.02, 0.1), 3), round(r.uniform(0.1, 0.8), 3), round(r.uniform(0.05, 0.3), 3), round(r.uniform(1, 4), 3)
        self.AT, self.KT, self.Dt = r.choice([3.0, round(r.uniform(0.9, 1.2), 3)]), round(r.uniform(1, 3), 2), r.choice([0.0, round(r.uniform(0, 0.5), 2)])
        self.hi, self.lo = r.choice([3.0, round(r.uniform(0.9, 1.2), 3)]), -0.05

    def text(self):
        return ", ".join("%g" % x for x in (self.R, self.T1, self.T2, self.T3, self.AT, self.KT, self.hi, self.lo, self.Dt))

    def init(self, P):
        if not self.lo < P < min(self.hi, self.AT) * 0.97:
            raise Limit
        self.ref = P
        return [P, P, P]

    def slopes(self, x, w):
        u = min(self.ref - w / self.R, self.AT + self.KT * (self.AT - x[2]))
        return x[1] - self.Dt * w, [Lag(1.0, self.T1, self.lo, self.hi).slope(x[0], u), (x[0] - x[1]) / self.T2, (x[1] - x[2]) / self.T3]

    def box(self, x):
        x[0] = clip(x[0], self.lo, self.hi)


class Hygov:
    def __init__(self, r, name):
        self.R, self.r, self.TR, self.TF, self.TG = round(r.uniform(0.03, 0.08), 3), round(r.uniform(0.2, 0.8), 3), round(r.uniform(3, 10), 2), round(r.uniform(0.05, 0.2), 3), round(r.uniform(0.1, 0.5), 3)
        self.TW, self.AT, self.Dt, self.q = round(r.uniform(0.8, 2), 3), round(r.uniform(1, 1.3), 3), r.choice([0.0, round(r.uniform(0, 0.5), 2)]), r.choice([0.0, round(r.uniform(0.02, 0.1), 3)])

    def text(self):
        return ", ".join("%g" % x for x in (self.R, self.r, self.TR, self.TF, self.TG, 99.0, 2.0, 0.0, self.TW, self.AT, self.Dt, self.q))

    def init(self, P):
        g = P / self.AT + self.q
        if not 0.1 < g < 1.9:
            raise Limit
        self.ref = self.R * g
        return [0.0, g, g, g]

    def slopes(self, x, w):
        """filter, integral of the gate controller, gate, flow"""
        c = x[0] / self.r + x[1]                                      # desired gate
        h = (x[3] / x[2]) ** 2
        return self.AT * h * (x[3] - self.q) - self.Dt * x[2] * w, [(self.ref - w - self.R * c - x[0]) / self.TF, x[0] / (self.r * self.TR), (c - x[2]) / self.TG, (1 - h) / self.TW]

    def box(self, x):
        pass


class Wsieg:
    def __init__(self, r, name):
        self.K, self.T1, self.T2, self.T3 = round(r.uniform(8, 25), 2), r.choice([0.0, round(r.uniform(0.05, 0.5), 3)]), r.choice([0.0, round(r.uniform(0.05, 0.5), 3)]), round(r.uniform(0.1, 0.5), 3)
        if not self.T1:
            self.T2 = 0.0
        self.Uo, self.Pmax = r.choice([9.0, round(r.uniform(0.1, 0.5), 3)]), r.choice([3.0, round(r.uniform(0.8, 1.1), 3)])
        self.T = [r.choice([0.0, round(r.uniform(0.1, 0.6), 3)]) for _ in range(4)]
        k = [r.random() for _ in range(4)]
        k = [round(x / sum(k), 3) for x in k[:3]]
        self.k = k + [round(1 - sum(k), 3)]

    def text(self):
        k, T = self.k, self.T
        return ", ".join("%g" % x for x in (0, 0, self.K, self.T1, self.T2, self.T3, self.Uo, -self.Uo, self.Pmax, -1.0, T[0], k[0], 0, T[1], k[1], 0, T[2], k[2], 0, T[3], k[3]) + (0,) * 15)

    def init(self, P):
        if not -0.9 < P < self.Pmax * 0.97:
            raise Limit
        self.ref = P
        return [0.0, P, P, P, P, P]

    def slopes(self, x, w):
        u, d0 = (self.K * w, 0.0)
        if self.T1:
            u, d0 = leadlag(x[0], u, self.T2, self.T1)
        d1 = clip((self.ref - u - x[1]) / self.T3, -self.Uo, self.Uo)
        if (x[1] >= self.Pmax and d1 > 0) or (x[1] <= -1.0 and d1 < 0):
            d1 = 0.0
        y, d, P = x[1], [d0, d1], 0.0
        for n in range(4):
            d.append((y - x[2 + n]) / self.T[n] if self.T[n] else 0.0)
            y = x[2 + n] if self.T[n] else y
            P += self.k[n] * y
        return P, d

    def box(self, x):
        x[1] = clip(x[1], -1.0, self.Pmax)


EXC = {"EXDC1": Dc1, "IEEET1": Dc1, "SEXS": Sexs, "ESST1A": St1a}
GOV = {"TGOV1": Tgov, "GAST": Gast, "HYGOV": Hygov, "WSIEG1": Wsieg}


class Round:
    """GENROU or GENSAL with optional exciter and governor"""

    def __init__(self, r, q, S, V):
        self.q, self.bus, self.on = q, q["bus"], True
        self.sal = r.random() < 0.5
        u = lambda a, b: round(r.uniform(a, b), 4)
        self.Xl = u(0.05, 0.12)
        self.Xdpp = u(0.16, 0.25)
        self.Xdp = round(self.Xdpp + u(0.05, 0.15), 4)
        self.Xd = u(1.0, 2.0)
        self.Xq = round(self.Xd * r.uniform(0.6, 0.95), 4)
        self.Xqp = round(self.Xdp + u(0.05, 0.2), 4)
        self.H, self.D = q["H"], q["D"]
        self.Td0, self.Td0p, self.Tq0, self.Tq0p = u(4, 9), u(0.03, 0.06), u(0.5, 1.5), u(0.04, 0.08)
        self.S1 = r.choice([0.0, u(0.05, 0.15)])
        self.S2 = round(self.S1 * r.uniform(3, 5), 4)
        if self.S1:
            a = math.sqrt(self.S2 / self.S1)
            self.A = (a - 1.2) / (a - 1)
            self.B = self.S1 / (1 - self.A) ** 2
        q["mbase"] = round(max(20.0, abs(S) * q["sbase"] * r.uniform(1.05, 1.6)), 1)
        q["ra"], q["x"] = r.choice([0.0, u(0.001, 0.01)]), self.Xdpp
        self.z = complex(q["ra"], self.Xdpp)
        self.base = q["mbase"] / q["sbase"]
        s = S / self.base
        I = (s / V).conjugate()
        Eq = V + complex(q["ra"], self.Xq) * I
        a = cmath.phase(Eq)
        i = I * cmath.exp(1j * (math.pi / 2 - a))                     # d axis: real part, q axis: imaginary part
        Id, Iq = i.real, i.imag
        v = V * cmath.exp(1j * (math.pi / 2 - a))
        v += self.z * i
        psd, psq = v.imag, -v.real
        e = psd + (self.Xdp - self.Xdpp) * Id
        kd = e - (self.Xdp - self.Xl) * Id
        efd = e * (1 + self.sat(e)) + (self.Xd - self.Xdp) * Id
        if efd < 0.05:
            raise Limit
        if self.sal:
            x = [a, 0.0, e, kd, psq]
        else:
            ed = -psq - (self.Xqp - self.Xdpp) * Iq
            x = [a, 0.0, e, kd, ed + (self.Xqp - self.Xl) * Iq, ed]
        self.n = len(x)
        self.efd0, self.pm0 = efd, psd * Iq - psq * Id
        self.exc = self.gov = None
        en, gn = r.choice(list(EXC) + [None]), r.choice(list(GOV) + [None])
        for name, kind in ((en, EXC), (gn, GOV)):
            if name is None:
                continue
            for _ in range(20):
                try:
                    m = kind[name](r, name)
                    m.name = name
                    if kind is EXC:
                        z = m.init(efd, abs(V), efd)
                        m.slopes(z, abs(V), efd)
                        self.exc = m
                    else:
                        z = m.init(self.pm0)
                        self.gov = m
                    m.at = len(x)
                    x += z
                    m.to = len(x)
                    break
                except Limit:
                    pass
        self.x = x
        self.yn = self.base / self.z

    def sat(self, e):
        return self.B * (e - self.A) ** 2 if self.S1 and e > self.A else 0.0

    def flux(self, x):
        a, b = (self.Xdpp - self.Xl) / (self.Xdp - self.Xl), (self.Xdp - self.Xdpp) / (self.Xdp - self.Xl)
        psd = x[2] * a + x[3] * b
        if self.sal:
            return psd, x[4]
        return psd, -x[5] * (self.Xdpp - self.Xl) / (self.Xqp - self.Xl) - x[4] * (self.Xqp - self.Xdpp) / (self.Xqp - self.Xl)

    def norton(self, x):
        psd, psq = self.flux(x)
        return (-psq + 1j * psd) * cmath.exp(1j * (x[0] - math.pi / 2)) * self.yn

    def rates(self, x, V):
        """slopes, field voltage, mechanical power, power"""
        psd, psq = self.flux(x)
        v = V * cmath.exp(1j * (math.pi / 2 - x[0]))
        i = (-psq + 1j * psd - v) / self.z
        Id, Iq = i.real, i.imag
        Te = psd * Iq - psq * Id
        k = self.Xdp - self.Xl
        f = (x[2] - x[3] - k * Id)
        ifd = x[2] * (1 + self.sat(x[2])) + (self.Xd - self.Xdp) * (Id + (self.Xdp - self.Xdpp) / k ** 2 * f)
        w = x[1]
        d = [0.0] * len(x)
        if self.exc:
            efd, d[self.exc.at:self.exc.to] = self.exc.slopes(x[self.exc.at:self.exc.to], abs(V), ifd)
        else:
            efd = self.efd0
        if self.gov:
            pm, d[self.gov.at:self.gov.to] = self.gov.slopes(x[self.gov.at:self.gov.to], w)
        else:
            pm = self.pm0
        d[0] = w * W0
        d[1] = ((pm - self.D * w) / (1 + w) - Te) / (2 * self.H)
        d[2] = (efd - ifd) / self.Td0
        d[3] = f / self.Td0p
        if self.sal:
            d[4] = (-x[4] - (self.Xq - self.Xdpp) * Iq) / self.Tq0p
        else:
            g = x[5] - x[4] + (self.Xqp - self.Xl) * Iq
            d[4] = g / self.Tq0p
            d[5] = (-x[5] + (self.Xq - self.Xqp) * (Iq - (self.Xqp - self.Xdpp) / (self.Xqp - self.Xl) ** 2 * g)) / self.Tq0
        return d, efd, pm, v * i.conjugate() * self.base

    def box(self, x):
        for m in (self.exc, self.gov):
            if m:
                y = x[m.at:m.to]
                m.box(y)
                x[m.at:m.to] = y

    def lines(self):
        q = self.q
        k = "%d, '%%s', '%-2s', " % (q["bus"], q["id"])
        t = [self.Td0, self.Td0p] + ([] if self.sal else [self.Tq0]) + [self.Tq0p, self.H, self.D, self.Xd, self.Xq, self.Xdp] + ([] if self.sal else [self.Xqp]) + [self.Xdpp, self.Xl, self.S1, self.S2]
        L = [k % ("GENSAL" if self.sal else "GENROU") + ", ".join("%g" % v for v in t) + " /"]
        for m in (self.exc, self.gov):
            if m:
                L.append(k % m.name + m.text() + " /")
        return L

    def kind(self):
        return "/".join(["GENSAL" if self.sal else "GENROU"] + [m.name for m in (self.exc, self.gov) if m])


class Detailed(Swing):
    def machine(self, q, s, V):
        q["sbase"] = self.g.sbase
        return Round(self.r, q, s, V)

    def deriv(self, X):
        V = self.volts([m.norton(x) for m, x in zip(self.M, X)])
        return [m.rates(x, V[m.bus]) for m, x in zip(self.M, X)], V

    def step(self, dt, n=2):
        """n classical Runge-Kutta steps"""
        h = dt / n
        add = lambda X, D, c: [[a + c * b for a, b in zip(x, d[0])] for x, d in zip(X, D)]
        for _ in range(n):
            X = [m.x for m in self.M]
            k1, _ = self.deriv(X)
            k2, _ = self.deriv(add(X, k1, h / 2))
            k3, _ = self.deriv(add(X, k2, h / 2))
            k4, _ = self.deriv(add(X, k3, h))
            for m, a, b, c, d in zip(self.M, k1, k2, k3, k4):
                if m.on:
                    m.x = [x + h / 6 * (p + 2 * q + 2 * s + t) for x, p, q, s, t in zip(m.x, a[0], b[0], c[0], d[0])]
                    m.box(m.x)


class A06(A04):
    id = "A06"
    plan = {"quick": (45, (1, 2, 3, 4, 7)), "thorough": (300, (1, 2, 3, 4, 5, 6, 7, 8))}
    rule = ("a case is one random network with random detailed machines, exciters and governors, and a list of events, simulated with two time steps on two numbers of processes and compared at every step with an integration by the checker; "
            "distinct by network, deck and processes")
    assumptions = ["models GENROU, GENSAL, EXDC1, IEEET1, SEXS, ESST1A, TGOV1, GAST, HYGOV, WSIEG1 with parameters in their usual ranges and time constants zero or above 7 time steps", "initial states within the limits",
                   "lines taken out leave the network connected; speeds stay within 5% of nominal; watched generators are not tripped"]
    kinds = [[], ["fault"], ["fault"], ["old"], ["line"], ["gen"], ["fault", "line"], ["fault", "fault"], ["line", "line"], ["fault", "line", "gen"], ["line", "reline"], ["line", "line", "reline", "gen"]]
    COL = ("V", "Pg", "Qg", "angle", "speed", "Efd", "Pm")

    def trace(self, sw, g, E, dt, steps):
        """state after each step"""
        sw.reduce()
        ev = {}
        for e in E:
            ev.setdefault(e[0], []).append(e)
            if e[1] in ("on", "old"):
                ev.setdefault(e[4], []).append((e[4], "off") + e[2:4] + (e,))
        g.when = sorted(ev)
        rows = []
        for k in range(steps):
            for e in ev.get(k, []):
                if e[1] in ("on", "old"):
                    sw.fault.setdefault(e[2], {})[id(e)] = e[3]
                elif e[1] == "off":
                    sw.fault[e[2]].pop(id(e[4]))
                elif e[1] == "line":
                    (sw.out.discard if e[3] else sw.out.add)(e[2])
                else:
                    for m in sw.M:
                        if m.q is e[2]:
                            m.on = bool(e[3])
            if k in ev:
                sw.reduce()
            sw.step(dt)
            D, V = sw.deriv([m.x for m in sw.M])
            row = {}
            for m, (_, efd, pm, s) in zip(sw.M, D):
                row[m.bus, m.q["id"]] = (abs(V[m.bus]), s.real, s.imag, m.x[0], 1 + m.x[1], efd, pm)
                if m.on and not abs(m.x[1]) < 0.05:
                    raise ValueError
            rows.append(row)
        return rows

    def jobs(self):
        n, procs = self.plan[TIER]
        for c in range(n):
            r = random.Random(self.rng.getrandbits(60))
            g = pfgen.Grid(r, r.choice([5, 8, 12, 18]), r.choice([23, 33, 33, 34, 35]), r.choice(["near", "exact"]), sbase=r.choice([100.0, 100.0, 50.0, 250.0]))
            p = r.choice([1.0, 1.0, 0.8])
            for q in g.gens:
                q["mbase"], q["x"] = 100.0, 0.2
                q["H"], q["D"], q["model"] = round(r.uniform(1.5, 9), 3), r.choice([0.0, round(r.uniform(0, 4), 2)]), r.random() < p
            dt, steps = 0.004, r.choice([100, 200])
            try:
                Detailed.r = r
                sw = Detailed(g)
                if not sw.M or len(sw.M) > 12:
                    raise ValueError
                E = self.events(r, g, dt, steps)
                E.sort(key=lambda e: e[0])
                rows = self.trace(sw, g, E, dt, steps)
            except (ValueError, Limit, OverflowError, ZeroDivisionError):
                self.stat("cases_not_determined")
                continue
            g.rows, g.dt, g.steps, g.E, g.freq, g.sim = rows, dt, steps, E, 1, sw
            gone = [e[2] for e in E if e[1] == "gen"]
            c2 = [(m.bus, m.q["id"]) for m in sw.M if not any(m.q is q for q in gone)]
            if not c2:
                self.stat("cases_not_determined")
                continue
            g.watch = r.sample(c2, min(len(c2), r.choice([3, 6, 99])))
            g.got = {}
            for m in sw.M:
                self.stat("machines " + m.kind())
            yield from self.make(r, c, g, procs)

    def make(self, r, c, g, procs):
        raw = g.file()
        L = [x for m in g.sim.M for x in m.lines()]
        L.sort(key=lambda x: (not x.split("'")[1].startswith("GEN"), r.random()))
        dyr = "\n".join(L) + "\n"
        g.cut = 1
        deck = self.deck(r, g)
        fit = [p for p in procs if len(g.buses) >= 3 * p]
        for cut in (1, 2):
            np = r.choice(fit)
            d = deck if cut == 1 else deck.replace("<timeStep>%g<" % g.dt, "<timeStep>%g<" % (g.dt / 2))
            j = Job("dm#%d.%d" % (c, cut), "applications/dynamic_simulation_full_y/dsf2.x", ["input.xml"], np, {"c%d" % c: g}, text=None, cwd_files={"g.raw": raw, "g.dyr": dyr, "input.xml": d}, timeout=180)
            j.cid, j.g, j.cut = "c%d" % c, g, cut
            yield j

    def judge(self, job, res):
        g = job.g
        w = self.read(job, g, res)
        if isinstance(w, tuple):
            self.v(w[0], job.cid, "%d processes, v%d, events %s: %s" % (job.np, g.ver, g.kinds, w[1]), job)
            return
        g.got[job.cut] = w
        if len(g.got) == 2:
            w = self.compare(g)
            if w:
                self.v(w[0], job.cid, "%d processes, v%d, events %s: %s" % (job.np, g.ver, g.kinds, w[1]), job)
        self.ok((job.cwd_files["g.raw"], job.cwd_files["g.dyr"], job.cwd_files["input.xml"], job.np), {"buses": len(g.buses), "machines": [m.kind() for m in g.sim.M], "events": g.kinds, "steps": g.steps * job.cut, "processes": job.np})

    def read(self, job, g, res):
        txt = res.files.get("watch.csv", b"").decode(errors="replace")
        L = [l for l in txt.split("\n") if l.strip()]
        if not L:
            return "watch", "no watch file written"
        head = [x.replace(" ", "") for x in L[0].split(",")]
        want = ["%d_%s_%s" % (b, i, k) for b, i in g.watch for k in self.COL]
        if head[0] != "t" or sorted(head[1:]) != sorted(want):
            return "header", "watch file header %s, the watched generators are %s" % (L[0][:300], g.watch)
        if len(L) - 1 != g.steps * job.cut:
            return "steps", "%d lines in the watch file of %d steps" % (len(L) - 1, g.steps * job.cut)
        return [dict(zip(head, map(float, l.split(",")))) for l in L[1:]]

    def compare(self, g):
        A, B = g.got[1], g.got[2][1::2]
        worst = dict.fromkeys(self.COL, 0.0)
        bad = None
        near = {k + d for k in g.when for d in (-2, -1, 0, 1)}
        turn = 0.0
        for k in range(g.steps):
            # what the errors allowed in the speed add to the angle
            turn += self.TOL * W0 * g.dt * worst["speed"]
            for col in self.COL:
                n = self.COL.index(col)
                smooth = col in ("angle", "speed")
                if not smooth and k in near:
                    continue
                for b, i in g.watch:
                    h = "%d_%s_%s" % (b, i, col)
                    worst[col] = max(worst[col], abs(A[k][h] - B[k][h]))
                for b, i in g.watch:
                    h = "%d_%s_%s" % (b, i, col)
                    ref = g.rows[k][b, i][n]
                    e = abs(B[k][h] - ref)
                    if not smooth and 0 < k < g.steps - 1:          # quantities that jump may do so one step earlier or later
                        near3 = [g.rows[j][b, i][n] for j in (k - 1, k, k + 1)]
                        e = max(0.0, B[k][h] - max(near3), min(near3) - B[k][h])
                    if not e <= self.TOL * worst[col] + 3e-5 + (turn if col == "angle" else 0.0):
                        return col, "time %g s: generator %s at bus %d (%s): %s %.6f with step %g s, %.6f with half of it, integration of the equations gives %.6f" % (
                            k * g.dt, i, b, [m.kind() for m in g.sim.M if (m.bus, m.q["id"]) == (b, i)][0], col, A[k][h], g.dt, B[k][h], ref)
                    if e > 3e-5:
                        self.smax("error at half the step / change by halving it: " + col, e / worst[col])
        self.stat("values_compared", g.steps * len(g.watch) * len(self.COL))

    TOL = 3.0
