from vlib.netcheck import *


class N02(NetCheck):
    id = "N02"
    mode = "xchg"
    plan = {"quick": [(1, 6), (2, 50), (3, 50), (4, 40), (6, 24), (8, 16)],
            "thorough": [(1, 40), (2, 400), (3, 400), (4, 400), (5, 300), (6, 200), (7, 150), (8, 250)]}
    rule = ("a case is one partitioned random network whose components publish buffers of random size (1..48 bytes, bus and branch sizes "
            "differ; allocated by the network or by the components) and a random script of writes, scribbles on ghosts, (re)initialisations, "
            "reallocations with new sizes and bus/branch updates; after every update every byte of every local buffer is compared with what the "
            "owner wrote last; distinct by (network, script) with at least one ghost observed")
    assumptions = ["the network has at least as many buses as processes (the array library underneath requires it)"]

    def params(self, net, np):
        r = self.rng
        net.par["xcb"] = r.choice([1, 2, 4, 7, 8, 12, 16, 24, 31, 48])
        net.par["xcl"] = r.choice([1, 3, 4, 8, 8, 16, 17, 40])
        net.par["alloc"] = r.randrange(2)
        net.par["scribble"] = r.randrange(2)
        order = r.choice(["IJ", "JI"])
        body = ""
        for _ in range(r.randint(3, 9)):
            body += r.choice(["B", "L", "BL", "LB", "WB", "WL", "WBL", "WLB", "WBWL", "BB", "RBL", "I", "J", "WIB", "WJL", "R"])
        net.par["script"] = order + body + "WBLWLB"

    def judge(self, job, res):
        for case, color, net, seqs in self.groups(job, res):
            seqs = [[x for x in q if x["t"] == "xc"] for q in seqs]
            gh = 0
            for s in range(len(seqs[0])):
                recs = [q[s] for q in seqs]
                op = recs[0]["stage"][-1]
                for r in recs:
                    gh += r["gb"] + r["gl"]
                    self.stat("ghost_buffers_compared", r["gb"] if op == "B" else r["gl"])
                    self.stat("owned_buffers_compared", (r["nb"] - r["gb"]) if op == "B" else (r["nl"] - r["gl"]))
                    if r["owned_changed"]:
                        self.v("owned-buffer-changed", case, "process %d after %s: %d owned buffers were altered by the update (bus %d, branch %d first)" % (r["me"], r["stage"], r["owned_changed"], r["firstb"], r["firstl"]), job)
                    elif r["badb"] or r["badl"]:
                        self.v("ghost-stale" , case, "process %d after %s: %d ghost buses and %d ghost branches do not hold their owner's current values (bus %d, branch %d first)" % (r["me"], r["stage"], r["badb"], r["badl"], r["firstb"], r["firstl"]), job)
                self.stat("updates_judged")
            if seqs[0]:
                self.ok((net.seed, net.par["script"]) if gh else None,
                        {"kind": net.kind, "buses": len(net.buses), "processes": len(seqs), "par": dict(net.par), "updates": len(seqs[0]), "ghost_copies": gh})
