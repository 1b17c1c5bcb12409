import math
from vlib.utilcheck import *


class B01(UtilCheck):
    id = "B01"
    kind = "stat"
    plan = {"quick": [(1, 14), (2, 30), (3, 24), (4, 24), (8, 12)], "thorough": [(1, 200), (2, 400), (3, 400), (4, 400), (6, 200), (8, 200)]}
    chunk = 30
    rule = ("a case is a statistics block of 1..260 rows and 1..260 columns on all processes or on the parts of a split, whose columns, labels and bounds come from varying single processes; "
            "each written table (mean and deviations, extremes, mask counts, column sums, with several mask thresholds) is recomputed from the entries; distinct by shape, source and tables")
    assumptions = ["the base column's own value bounds the extremes whatever its mask", "values are printed with nine digits"]

    def gen(self, cid, np, files):
        r = self.rng
        big = r.random() < .3
        nr = r.choice([1, 2, 99, 100, 101, 200, 201, 260]) if big else r.randint(1, 40)
        nc = r.choice([1, 2, 99, 100, 101, 199, 200, 260]) if r.random() < .3 else r.randint(1, 30)
        K = r.choice([1, 1, 1, 2, 3]) if np >= 3 else 1
        per = np // K                      # rows must not leave a process of the part without any of the array
        nr = max(nr, per + 1 if K > 1 else np)
        br, mm, S = r.randint(0, 1), r.choice([0, 1, 1, 2, 3]), r.getrandbits(40)
        ops = [line("par", nr, nc, S, K, br, mm), line("cols", r.getrandbits(40))]
        tabs = []
        lab = r.choice([-1, 0, r.randint(0, 7), r.randint(0, 7)])
        pre = [line("labels", lab)]
        bounds = ""
        for w in ("min", "max"):
            if r.random() < .5:
                pre.append(line(w, r.choice([-1, 0, r.randint(0, 7)])))
                bounds += w
        r.shuffle(pre)
        ops += pre
        for _ in range(r.randint(1, 4)):
            t = r.choice(["mean", "minmax", "count", "sum"])
            mv, fl = r.randint(0, mm + 1), r.randint(0, 1)
            if t == "sum":
                fl = 1
            ops.append(line(t, mv, fl))
            tabs.append((t, mv, fl, len(ops) - 1))
        if r.random() < .3:                # new data in the same block
            pass
        return ops, (nr, nc, S, K, br, mm, bounds, tabs)

    @staticmethod
    def close(a, b, tol=2e-6):
        return abs(a - b) <= tol + 1e-8 * abs(b)

    def judge(self, job, res):
        for case, (nr, nc, S0, K, br, mm, bounds, tabs), ops, seqs in self.logs(job, res):
            good = True
            for color in range(min(K, job.np)):
                S = S0 + color
                D = [[hval(hsh(S, i, j, 1)) for j in range(nc)] for i in range(nr)]
                M = [[hsh(S, i, j, 2) % (mm + 1) for j in range(nc)] for i in range(nr)]
                for t, mv, fl, n in tabs:
                    f = "%s.%d.%d.stat" % (case, color, n)
                    text = res.files.get(f)
                    msg = "no file was written" if text is None else self.table(text.decode("latin1"), t, mv, fl, nr, nc, S, br, bounds, D, M)
                    self.stat("tables_" + t)
                    if msg:
                        good = False
                        self.v(t, case, "%s: %s" % (ops[n].strip(), msg), job)
            if good:
                self.ok(sig=tuple(ops), sample="case %s: %d rows, %d columns, %d tables agree" % (case, nr, nc, len(tabs)))

    def table(self, text, t, mv, fl, nr, nc, S, br, bounds, D, M):
        L = text.splitlines()
        if len(L) != (nc if t == "sum" else nr):
            return "%d lines, must be %d" % (len(L), nc if t == "sum" else nr)
        for i, l in enumerate(L):
            k = l.split()
            if t == "sum":
                s = sum(D[q][i] for q in range(nr) if M[q][i] >= mv)
                if len(k) != 3 or int(k[0]) != i or not self.close(float(k[1]), s) or not self.close(float(k[2]), s / nr):
                    return "line %d is %r, the sum is %.9g and the mean %.9g" % (i, l, s, s / nr)
                continue
            head = [str(i + 1), str(hsh(S, i, 5) % 100000)]
            if br:
                head.append(str(hsh(S, i, 6) % 100000))
            if fl:
                head.append(chr(65 + hsh(S, i, 7) % 26) + (str(hsh(S, i, 9) % 10) if hsh(S, i, 8) % 2 else ""))
            if k[:len(head)] != head:
                return "line %d is %r, must start with the labels %s" % (i, l, head)
            k = k[len(head):]
            sel = [j for j in range(nc) if M[i][j] >= mv]
            v = [D[i][j] for j in sel]
            b = D[i][0]
            if t == "count":
                want = [sum(1 for j in range(nc) if M[i][j] == mv)]
            elif t == "mean":
                n = len(v)
                mean = sum(v) / n if n else 0.0
                want = [mean, math.sqrt(sum((x - mean) ** 2 for x in v) / (n - 1)) if n > 1 else 0.0,
                        math.sqrt(sum((D[i][j] - b) ** 2 for j in sel if j) / (n - 1)) if n > 1 else 0.0]
            else:
                lo, hi = min(v + [b]), max(v + [b])
                want = [b, lo, hi, lo - b, hi - b]
                if "min" in bounds:
                    want.append(hval(hsh(S, i, 10)))
                if "max" in bounds:
                    want.append(hval(hsh(S, i, 11)))
                pos = [next(j for j in [0] + sel if D[i][j] == x) for x in (lo, hi)]
                want += pos
            if len(k) != len(want) or not all(self.close(float(a), w) for a, w in zip(k, want)):
                return "line %d ends in %s, must be %s" % (i, k, want)


if __name__ == "__main__":
    B01().main()
