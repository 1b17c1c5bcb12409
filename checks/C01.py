from vlib.utilcheck import *
from xml.sax.saxutils import escape

TAGS = ["Powerflow", "networkConfiguration", "maxIteration", "tolerance", "LinearSolver", "PETScOptions", "Events", "faultEvent", "x", "y", "z", "a", "Monitor"]


class Node:
    def __init__(self, name, text=None, kids=None):
        self.name, self.text, self.kids = name, text, kids or []


class C01(UtilCheck):
    id = "C01"
    kind = "cfg"
    plan = {"quick": [(1, 40), (2, 60), (4, 60), (3, 30), (7, 20)], "thorough": [(1, 600), (2, 900), (4, 900), (3, 400), (7, 400)]}
    rule = ("a case is one or two random XML configurations (nested blocks, repeated names, vectors, escapes, comments, values up to 100 kB) opened from file or text on all processes or on the parts of "
            "a split, or an unreadable one (missing, empty, truncated, garbage, no text) followed by a good one; every key of it, absent keys, cursors and child lists are read on every "
            "process and compared with the generated tree; distinct by file and queries")
    assumptions = ["values are written in the form of the type they are read as", "two files opened on one configuration have different outermost blocks"]

    # ---- generation
    def value(self):
        r = self.rng
        k = r.choice("iidddbssss")
        pad = lambda s: " " * r.choice([0, 0, 1, 3]) + s + " " * r.choice([0, 0, 1, 4])
        if k == "i":
            v = r.choice([0, 1, -1, 2147483647, -2147483648, r.randint(-99999, 99999)])
            return k, v, pad(str(v))
        if k == "d":
            v = r.choice([0.0, 1e-9, -3.5, 1e22, r.uniform(-1e3, 1e3), 10.0 ** r.randint(-300, 300)])
            return k, v, pad(repr(v))
        if k == "b":
            v = r.random() < .5
            return k, v, pad(r.choice([["false", "0"], ["true", "1"]][v]))
        v = r.choice(["IEEE14.raw", "a b  c", "-ksp_type gmres -pc_type lu", "x<y & z>\"q'", "", "tab\tin", "l1\nl2", "  ", "true", "12", "w" * r.choice([1, 100, 5000]), "1.5e", "-", "a.b.c"])
        return "s", v.strip(" "), pad(v)

    def tree(self, depth=0):
        r = self.rng
        kids = []
        for _ in range(r.randint(1, 6) if depth else r.randint(2, 7)):
            n = r.choice(TAGS)
            q = r.random()
            if q < .3 and depth < 4:
                kids.append(Node(n, kids=self.tree(depth + 1)))
            elif q < .4:
                kids.append(Node(n, kids=[Node(c, ("d", v, repr(v))) for c, v in ((c, r.uniform(-9, 9)) for c in "xyz") if r.random() < .9] or [Node("x", ("d", 1.0, "1.0"))]))
            else:
                kids.append(Node(n, self.value()))
        return kids

    def xml(self, nodes, ind=0):
        r = self.rng
        out = ""
        for n in nodes:
            if r.random() < .1:
                out += " " * ind + "<!-- a comment <a>7</a> -->\n"
            if n.text is not None:
                out += " " * ind + "<%s>%s</%s>\n" % (n.name, escape(n.text[2], {'"': "&quot;"} if r.random() < .5 else {}), n.name)
            else:
                out += " " * ind + "<%s>\n%s%s</%s>\n" % (n.name, self.xml(n.kids, ind + 2), " " * ind, n.name)
        return out

    @staticmethod
    def find(kids, path):
        cur = Node("", kids=kids)
        for p in path.split("."):
            cur = next((k for k in cur.kids if k.name == p), None)
            if cur is None:
                return None
        return cur

    def paths(self, kids, pre=""):
        for k in kids:
            yield pre + k.name
            if k.kids:
                yield from self.paths(k.kids, pre + k.name + ".")

    def gen(self, cid, np, files):
        r = self.rng
        ops, exp = [], []

        def op(e, *t):
            ops.append(line(*t))
            exp.append(e)
        if np > 1 and r.random() < .3:
            op(True, "split", r.choice([1, 2, 3]))
        top = Node("Configuration", kids=self.tree())
        text = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n" * r.randint(0, 1) + self.xml([top])
        if r.random() < .08:
            text += "<!--" + "pad " * 30000 + "-->\n"
        bad = r.choice(["missing", "empty", "cut", "notext", "garbage"]) if r.random() < .35 else None
        root = [top]
        if bad:
            f = cid + "_bad.xml"
            if bad == "cut":
                b = text[:r.randint(20, max(21, text.rindex("</") - 1))]
                while b.count("<Configuration>") == 0 or b.rstrip().endswith("</Configuration>"):
                    b = text[:text.index("<Configuration>") + 20]
            else:
                b = {"empty": "", "missing": None, "notext": "", "garbage": "<<<>>&&\n"}[bad]
            if b is not None:
                files[f] = b
            if bad == "notext":
                op(False, "openstr", f, 0)
            elif bad == "cut" and r.random() < .5:
                op(False, "openstr", f, 1)
            else:
                op(False, "open", f)
        files[cid + "_1.xml"] = text
        op(True, *(("open", cid + "_1.xml") if r.random() < .6 else ("openstr", cid + "_1.xml", r.randint(0, 1))))
        if r.random() < .3:
            t2 = Node("Extra", kids=self.tree())
            files[cid + "_2.xml"] = self.xml([t2])
            op(True, "open", cid + "_2.xml")
            root = [top, t2]

        def query(kids, rel):
            n = self.find(kids, rel)
            ty = n.text[0] if n is not None and n.text else r.choice("vv" if n is not None else "idbsv")
            df = {"i": r.randint(-9, 9), "d": r.randint(-9, 9) + .5, "b": r.randint(0, 1), "s": r.choice(["dflt", "two words"]), "v": 2.5}[ty]
            if n is None:
                e = ("g", ty, df, None)
            elif ty == "v":
                e = ("g", ty, df, [next((c.text[1] if c.text and c.text[0] == "d" else "?" for c in n.kids if c.name == k), 0.0) for k in "xyz"])
                if "?" in e[3]:
                    return
            else:
                e = ("g", ty, df, n.text[1])
            op(e, "g", ty, rel, df)
        for p in self.paths(root):
            if r.random() < .8:
                query(root, p)
            if r.random() < .15:
                query(root, p + r.choice([".absent", "x", ".x.x"]))
        for _ in range(r.randint(0, 6)):                 # walk down by cursors and children
            kids = root
            for _ in range(r.randint(1, 4)):
                if r.random() < .5:
                    p = r.choice(list(self.paths(kids)) + ["nothing"]) if kids else "nothing"
                    n = self.find(kids, p)
                    op(n is not None, "cur", p)
                    if n is not None:
                        kids = n.kids
                elif kids:
                    w = r.randrange(len(kids))
                    op(("kids", [k.name for k in kids]), "kids", w, r.randint(0, 1))
                    kids = kids[w].kids
                for p in list(self.paths(kids))[:3]:
                    query(kids, p)
            op(("kids", [k.name for k in kids]), "kids", -1, 0)
            op(True, "root")
        return ops, exp

    @staticmethod
    def wrong(x, e):
        if e in (True, False):
            return None if x["r"] == e else "returned %s, must be %s" % (x["r"], e)
        if e[0] == "kids":
            if not x["r"]:
                return "the two forms of children() list different numbers"
            return None if x["names"] == e[1] else "children are %s, must be %s" % (x["names"], e[1])
        ty, df, val = e[1:]
        if val is None:
            if x["r"]:
                return "an absent key was found"
            want = [df, df] if ty == "v" else bool(df) if ty == "b" else df
            return None if x["d"] == want else "an absent key gives %r and not the default %r" % (x["d"], want)
        if not x["r"]:
            return "the key is there with value %r but was not found" % (val,)
        if x["d"] != val or x["v"] != val or (ty == "b" and x["w"] != val) or (ty == "s" and x["d2"] != val):
            return "the value is %r / %r, must be %r" % (x["d"], x["v"], val)

    def judge(self, job, res):
        for case, exp, ops, seqs in self.logs(job, res):
            good = True
            for rank, recs in enumerate(seqs):
                for x, e, o in zip(recs, exp, ops):
                    self.stat("queries")
                    m = self.wrong(x, e)
                    if m:
                        good = False
                        self.v(o.split()[0], case, "process %d of %d, %s: %s" % (rank, job.np, o.strip()[:200], m), job)
                        break
                if not good:
                    break
            if good and len(seqs[0]) == len(exp):
                self.ok(sig=(job.cwd_files[case + "_1.xml"], tuple(ops)), sample="case %s: %d queries on %d processes agree with the tree" % (case, len(exp), job.np))


if __name__ == "__main__":
    C01().main()
