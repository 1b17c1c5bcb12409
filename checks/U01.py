import re
from vlib.utilcheck import *


def blank(s):
    """tokens separated by blanks or tabs; a quoted token runs to its closing quote"""
    s = s.replace("\t", " ")
    out, i = [], 0
    while True:
        while i < len(s) and s[i] == " ":
            i += 1
        if i >= len(s):
            return out
        if s[i] in "'\"":
            j = s.find(s[i], i + 1)
            j = len(s) if j < 0 else j + 1
        else:
            j = s.find(" ", i)
            j = len(s) if j < 0 else j
        out.append(s[i:j])
        i = j


class U01(UtilCheck):
    id = "U01"
    kind = "str"
    plan = {"quick": [(1, 60)], "thorough": [(1, 1500)]}
    rule = ("a case is 60 random strings (empty, blank, only separators, repeated and trailing separators, quotes, tabs, carriage returns, up to 400 characters) given to the tokenisers, trimming, case and "
            "logical conversions and identifier cleaning; results are compared with reference definitions; distinct by strings")
    assumptions = ["a quoted token is closed", "identifiers hold one or two characters without inner blanks or quotes"]

    def word(self, alpha="abcXYZ019_-.+"):
        r = self.rng
        return "".join(r.choice(alpha) for _ in range(r.choice([1, 1, 2, 3, 8, 30])))

    def one(self):
        r = self.rng
        o = r.choice(["trim", "up", "low", "c2", "tq", "blank", "blank", "blank", "char", "char", "char", "bool"])
        ws = lambda c: "".join(r.choice(c) for _ in range(r.choice([0, 0, 1, 1, 2, 5])))
        if o == "trim":
            core = r.choice(["", self.word(), self.word() + " " + self.word(), self.word() + "\t" + self.word()])
            s = ws(" \t\r\n") + core + ws(" \t\r\n")
            return o, (s,), re.sub("[\t\r\n]", " ", s).strip(" ")
        if o in ("up", "low"):
            s = r.choice(["", self.word(), self.word() + "' \"" + self.word()])
            return o, (s,), s.upper() if o == "up" else s.lower()
        if o == "c2":
            w = self.word("abXY019&@*")[:2]
            q = r.choice(["'", '"', ""])
            s = ws(" ") + q + (ws(" ")[:2] if q else "") + w + (ws(" ")[:2] if q else "") + q + ws(" ")
            return o, (s,), ("c2", w)
        if o == "tq":
            w = r.choice([self.word(), self.word() + " " + self.word()])
            q = r.choice(["'", '"', ""])
            s = ws(" ") + q + (ws(" ") if q else "") + w + (ws(" ") if q else "") + q + ws(" ")
            return o, (s,), w
        if o == "blank":
            n = r.choice([0, 1, 1, 2, 3, 8, 20])
            toks = []
            for _ in range(n):
                q = r.random()
                toks.append(self.word() if q < .7 else "'" + r.choice(["", self.word() + " " + self.word(), " " + self.word(), '"']) + "'" if q < .85 else '"' + r.choice([self.word() + " x", "it's", ""]) + '"')
            s = ws(" \t") + "".join(t + (ws(" \t") or r.choice(" \t")) for t in toks)
            if r.random() < .5:
                s = s.rstrip(" \t")
            return o, (s,), blank(s)
        if o == "char":
            sep = r.choice([",", "/", "|", " ", ";"])
            words = [self.word("abcXYZ01") for _ in range(r.choice([0, 1, 1, 2, 3, 8, 20]))]
            rep = lambda lo: sep * r.choice([lo, lo, lo, lo + 1, lo + 3])
            s = rep(0) + "".join(w + rep(1) for w in words)
            if words and r.random() < .6:
                s = s.rstrip(sep)
            return o, (s, sep), [w for w in s.split(sep) if w]
        v = r.random() < .5
        s = r.choice(["true", "yes", "t", "y", "1"] if v else ["false", "no", "f", "n", "0"])
        s = "".join(r.choice([c, c.upper()]) for c in s)
        return o, (ws(" \t") + s + ws(" \t\r"),), ("bool", v)

    def gen(self, cid, np, files):
        ops, exp = [], []
        for _ in range(60):
            o, a, e = self.one()
            ops.append(line(o, *a))
            exp.append((o, a, e))
        return ops, exp

    def judge(self, job, res):
        for case, exp, ops, seqs in self.logs(job, res):
            good = True
            for x, (o, a, e) in zip(seqs[0], exp):
                self.stat("strings_%s" % o)
                if "exc" in x:
                    m = "threw %s" % x["exc"]
                elif isinstance(e, tuple):
                    if e[0] == "bool":
                        m = None if x["v"] == e[1] and x["w"] == e[1] else "%s/%s" % (x["v"], x["w"])
                    else:
                        m = None if x["v"].strip(" ") == e[1] and len(x["v"]) == 2 else repr(x["v"])
                    e = e[1]
                else:
                    m = None if x["v"] == e else repr(x["v"])
                if m:
                    good = False
                    self.v(o, case, "%s%r gives %s, must be %r" % (o, a, m, e), job)
                    break
            if good and len(seqs[0]) == len(exp):
                self.ok(sig=tuple(ops), sample="case %s: %s" % (case, exp[0]))


if __name__ == "__main__":
    U01().main()
