from vlib.mathcheck import *


class L01(MathCheck):
    id = "L01"
    rule = ("a case is a program of up to 24 vector operations (all element accessors, arithmetic, element functions, clones, raw local arrays, files, norms) on up to "
            "six vectors of three lengths distributed at random, including processes without elements, in real or complex numbers, on 1..8 processes or in simultaneous "
            "groups; after each operation every element on every process, the gathered form, sizes and ranges are compared with a reference interpreter; "
            "distinct by (seed, processes)")

    def propose(self, sim, r, solo):
        V = sorted(sim.V)
        key = r.randrange(1, 5000)
        if len(V) < 2 or r.random() < 0.06:
            return ["new", r.randrange(6), r.randrange(3) if r.random() < 0.5 else 0]
        v = r.choice(V)
        w = r.choice([x for x in V if sim.V[x][0] == sim.V[v][0]])
        u = r.choice([x for x in V if sim.V[x][0] == sim.V[v][0]])
        if sim.step == 0 and not any(sim.V[v][1]) and r.random() < 0.7:
            return ["set", v, sim.V[v][0], r.randrange(3), key]
        op = r.choice(["set", "set", "add", "add", "fill", "zero", "scale", "addc", "axpy", "axpy", "axp1", "equ", "mul", "div", "abs", "real", "imag", "conj", "exp", "rec",
                       "cln", "fabs", "freal", "fimag", "fconj", "fadd", "addr", "loc", "norm", "norm", "lcl", "sav", "rec", "div", "exp"])
        if op == "lcl" and not solo:
            op = "norm"
        if op in ("set", "add"):
            return [op, v, sim.V[v][0], r.randrange(4 if op == "set" else 3), key]
        if op in ("fill", "scale", "addc", "loc"):
            return [op, v, key]
        if op == "axpy":
            return [op, v, w, key]
        if op in ("axp1", "equ", "mul", "div", "sav"):
            return [op, v, w]
        if op in ("cln", "fabs", "freal", "fimag", "fconj"):
            return [op, r.randrange(6), v]
        if op in ("fadd", "addr"):
            return [op, r.randrange(6) if op == "fadd" else r.choice(V), v, w]
        return [op, v]
