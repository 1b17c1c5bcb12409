from vlib.netcheck import *


class N01(NetCheck):
    id = "N01"
    mode = "topo"
    dup = 0.3
    rule = ("a case is one random network (8 topology families, random original and global numbering, branch direction and initial "
            "placement) partitioned on a communicator of 1..8 processes (world or one of several simultaneous sub-communicators), optionally "
            "cleaned and repartitioned or cleared and rebuilt; counted distinct and non-trivial by (network seed, process count, stage) when at "
            "least two processes own buses and ghosts exist")
    assumptions = ["every branch joins two different buses of the network", "global indices given by the caller are a permutation of 0..N-1, as the parsers produce"]

    def params(self, net, np):
        net.par["repart"] = self.rng.choice([0, 0, 1, 2])
        net.par["clear"] = int(self.rng.random() < 0.2)

    def judge(self, job, res):
        for case, color, net, seqs in self.groups(job, res):
            for s in range(len(seqs[0])):
                recs = [q[s] for q in seqs]
                st = recs[0]["stage"]
                bad = check_distributed(net, recs, ghosts=st == "part") if st == "part" else self.check_clean(net, recs)
                for r in recs:
                    if r["bad"]:
                        bad.append(("payload", "process %d: %d components or data collections arrived altered, e.g. %s" % (r["me"], r["bad"], r["what"])))
                for k, m in bad:
                    self.v(k, case, "stage %d (%s), network %s n=%d on %d processes: %s" % (s, st, net.kind, len(net.buses), len(recs), m), job)
                gh = sum(1 for r in recs for b in r["buses"] if not b[2])
                owners = sum(1 for r in recs if any(b[2] for b in r["buses"]))
                self.stat("stages_judged")
                self.stat("bus_copies_seen", sum(len(r["buses"]) for r in recs))
                self.stat("branch_copies_seen", sum(len(r["branches"]) for r in recs))
                self.stat("ghost_buses_seen", gh)
                if len(recs) > 1 and owners < len(recs):
                    self.stat("partitions_with_an_empty_process")
                self.ok((net.seed, len(recs), s) if gh and owners > 1 else None,
                        {"kind": net.kind, "ids": net.ids, "dist": net.dist, "buses": len(net.buses), "branches": len(net.branches), "processes": len(recs), "stage": st, "ghost_buses": gh})

    def check_clean(self, net, recs):
        return check_distributed(net, recs, ghosts=False)
