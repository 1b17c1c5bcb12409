from vlib.parcheck import *


class P05(ParCheck):
    id = "P05"
    mode = "store"
    rule = ("a case is one distributed store (vectors by index, with holes and empty vectors) or one distributed vector (elements by index, uploaded, "
            "then reloaded up to three times) of one of five element types, filled from all, one, or alternating processes and read back completely and "
            "at random on every process, with pauses injected around array-library calls and block clearing; distinct by seed and type")

    def jobs(self):
        for m in ("store", "gvec"):
            self.mode = m
            yield from super().jobs()

    def params(self, np, r):
        if self.mode == "store":
            return {"type": r.randrange(5), "n": r.choice([1, 2, 5, 20, 60]), "maxlen": r.choice([1, 4, 40]), "hole": r.randrange(2), "pattern": r.randrange(4), "zero": r.randrange(2)}
        return {"type": r.randrange(4), "n": r.choice([np, 7 + np, 60, 300, 1500]), "hole": r.randrange(2), "pattern": r.randrange(4), "rounds": r.randrange(4)}

    def judge(self, job, res):
        for case, color, g, seqs in self.groups(job, res):
            seen = 0
            for q in seqs:
                for x in q:
                    seen += x["seen"]
                    self.stat("items_read", x["seen"])
                    if x["bad"]:
                        self.v(x["t"] + "-wrong", case, "process %d of %d, round %s: %d of %d items differ from what was stored, first %s (%s)" % (
                            x["me"], len(seqs), x.get("r", 0), x["bad"], x["seen"], x["what"], g.par), job)
            self.ok((job.name, g.seed) if seen else None, {"kind": job.name, "par": g.par, "processes": len(seqs), "items": seen})
