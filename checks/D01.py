import struct
from vlib.utilcheck import *

NAMES = ["BUS_NUMBER", "LOAD_PL", "GENERATOR_ID", "X", "BUS_NAME", "BRANCH_CKT", "A" * 60]
IDX = ["-", "0", "1", "2", "9", "10", "99", "100", "4095", "999999", "9999999", "10000000", "2147483647", "-1", "-1000000", "-2147483648"]
DEFAULT = {}


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


class D01(UtilCheck):
    id = "D01"
    kind = "dc"
    plan = {"quick": [(1, 300)], "thorough": [(1, 6000)]}
    chunk = 150
    rule = ("a case is a random history of adds, sets, gets, copies and serialisation round trips over a few names, plain and indexed, in all seven types on two data collections; every "
            "result is compared with a typed dictionary; distinct by the sequence of operations")
    assumptions = ["which value stays when a name of the same type is added twice is not judged (either is accepted until it is read or set)"]

    def val(self, ty):
        r = self.rng
        if ty == "i":
            return r.choice([0, 1, -1, 2147483647, -2147483648, r.randint(-10**6, 10**6)])
        if ty == "l":
            return r.choice([0, 2**62, -2**63, 2**63 - 1, r.randint(-10**15, 10**15), r.randint(-100, 100)])
        if ty == "b":
            return r.random() < .5
        if ty == "s":
            return r.choice(["", " ", "1 ", "'AB'", "x" * r.randint(1, 300), "a:b", "tab\there", "\xe9\xff", str(r.randint(0, 99))])
        if ty == "f":
            return f32(r.choice([0.0, 1e-38, 3e38, r.uniform(-100, 100)]))
        d = lambda: r.choice([0.0, 5e-324, 1.7e308, 0.1, r.uniform(-1e4, 1e4), 1.0 / 3])
        return [d(), d()] if ty == "c" else d()

    def gen(self, cid, np, files):
        r = self.rng
        names = r.sample(NAMES, r.randint(1, 4))
        idx = r.sample(IDX, r.randint(1, 4))
        ops, exp = [], []
        cur, other = {}, {}
        for _ in range(r.randint(10, 70)):
            o = r.choice("aaaassgggggggcxz")
            if o in "asg":
                ty, n, x = r.choice("ilbsfdc"), r.choice(names), r.choice(idx)
                wire = (n, x)
                key = (ty, n if x == "-" else n + ":" + x)
                if x != "-" and r.random() < .15:
                    wire = (n + ":" + x, "-")           # the documented tag of an indexed item
                if o == "g":
                    ops.append(line("g", ty, *wire))
                    exp.append(("g", ty, key, list(cur[key]) if key in cur else None))
                    if key in cur and len(cur[key]) > 1:
                        exp[-1] += (cur[key],)          # narrowed by what is read
                        # which one it is cannot be predicted: set it to a known value next
                        w = self.val(ty)
                        ops.append(line("s", ty, *wire, *self.wire(ty, w)))
                        exp.append(("s", True))
                        cur[key] = [w]
                else:
                    w = self.val(ty)
                    ops.append(line(o, ty, *wire, *self.wire(ty, w)))
                    if o == "a":
                        cur[key] = cur.get(key, []) + [w] if key in cur else [w]
                        exp.append(("a",))
                    else:
                        exp.append(("s", key in cur))
                        if key in cur:
                            cur[key] = [w]
            elif o == "c":
                ops.append(line("c"))
                exp.append(("c",))
                other = {k: list(v) for k, v in cur.items()}
            elif o == "x":
                ops.append(line("x"))
                exp.append(("x",))
                cur, other = other, cur
            else:
                ops.append(line("z", r.choice("01")))
                exp.append(("z",))
        for (ty, n) in sorted(cur):
            ops.append(line("g", ty, n, "-"))
            exp.append(("g", ty, (ty, n), list(cur[(ty, n)])))
        ops.append(line("g", "i", "STALE", "-"))
        exp.append(("g", "i", ("i", "STALE"), None))
        return ops, exp

    @staticmethod
    def wire(ty, v):
        if ty == "b":
            return ["1" if v else "0"]
        if ty == "c":
            return [repr(v[0]), repr(v[1])]
        return [repr(v) if isinstance(v, float) else v]

    def judge(self, job, res):
        for case, exp, ops, seqs in self.logs(job, res):
            good = True
            if len(seqs[0]) != len(exp):
                continue
            for x, e, o in zip(seqs[0], exp, ops):
                self.stat("operations")
                msg = None
                if e[0] == "s" and x["r"] != e[1]:
                    msg = "set returned %s where %s an item of that name and type" % (x["r"], "there is" if e[1] else "there is not")
                if e[0] == "g":
                    ty = e[1]
                    if e[3] is None:
                        if x["r"]:
                            msg = "there is no such item, but %r was returned" % (x["v"],)
                        elif not x["kept"]:
                            msg = "a failed get changed the caller's variable to %r" % (x["v"],)
                    elif not x["r"]:
                        msg = "the item exists with value %r but was not found" % (e[3],)
                    else:
                        v = x["v"]
                        if ty == "f":
                            v = f32(v)
                        if not any(v == w for w in e[3]):
                            msg = "value is %r, must be %s" % (v, " or ".join(map(repr, e[3])))
                if msg:
                    good = False
                    self.v({"g": "get", "s": "set"}[e[0]], case, "operation %d (%s): %s" % (x["n"], o.strip(), msg), job)
                    break
            if good:
                self.ok(sig=tuple(ops), sample="case %s: %d operations agree with the dictionary" % (case, len(exp)))


if __name__ == "__main__":
    D01().main()
