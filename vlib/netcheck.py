"""Common shape of the checks that drive vh_net / vh_map."""
from .core import *
from . import netgen


class NetCheck(Check):
    targets = ("vh_net",)
    exe = "vh/vh_net"
    mode = "topo"
    per_rank = 3            # least number of buses per process generated
    maxn = 110
    plan = {"quick": [(1, 6), (2, 24), (3, 24), (4, 24), (6, 16), (8, 10)], "thorough": [(1, 40), (2, 300), (3, 300), (4, 300), (5, 200), (6, 200), (7, 120), (8, 200)]}
    split = True
    dup = 0.0

    def params(self, net, np):
        """per-network parameters"""

    def mknet(self, np):
        lo = max(3, self.per_rank * np)
        n = self.rng.randint(lo, max(lo + 4, self.maxn))
        return netgen.make(self.rng, n, np, dup=self.dup)

    def jobs(self):
        scale = 1
        for np, cnt in self.plan[TIER]:
            chunk = 25
            for c0 in range(0, cnt, chunk):
                text, cases = "", {}
                for i in range(c0, min(cnt, c0 + chunk)):
                    cid = "n%d.%d" % (np, i)
                    k = 1
                    style = self.rng.randrange(2)
                    if self.split and np >= 4 and self.rng.random() < 0.4:
                        k = self.rng.choice([2, 2, 3]) if np >= 6 else 2
                    nets = []
                    for sz in netgen.color_sizes(np, k, style):
                        net = self.mknet(sz)
                        self.params(net, sz)
                        nets.append(net)
                    t = netgen.case_text(cid, nets, {"style": style})
                    cases[cid] = (t, nets, k, style)
                    text += t
                yield Job("%s#%d" % (self.mode, np), self.exe, [self.mode, "@D/cases.txt", "@D/out"], np, cases=cases, text=text)

    def case_text(self, job, case):
        c = job.cases.get(case)
        return c[0] if c else job.text

    def groups(self, job, res):
        """yield (case id, color, net, {stage index: [records by group rank]}) in log order"""
        by = {}
        for r, recs in enumerate(res.ranks):
            for x in recs:
                if x.get("t") == "viol":
                    self.v(x["key"], x["case"], x["msg"], job)
                if "color" in x:
                    by.setdefault((x["case"], x["color"]), {}).setdefault(x["me"], []).append(x)
        for (case, color), ranks in by.items():
            net = job.cases[case][1][color]
            seqs = [ranks[m] for m in sorted(ranks)]
            n = netgen.color_sizes(job.np, job.cases[case][2], job.cases[case][3])[color]
            if len(seqs) != n or len({len(s) for s in seqs}) != 1:
                raise HarnessError("ragged log in %s" % case)
            yield case, color, net, seqs


# ---- the distributed-network oracle, used by N01 (after partition), N03 and others
def check_distributed(net, ranks, ghosts=True, gids=True, idxs=None):
    """ranks: per process {buses:[[orig,gid,act,brs,cbs]..], branches:[[gid,act,o1,o2,l1,l2]..]}
    Returns a list of (key, message)."""
    bad = []

    def e(k, m):
        if len(bad) < 20:
            bad.append((k, m))
    want_b = {o: g for o, g, _ in net.buses}
    want_l = {g: (a, b) for g, a, b, _ in net.branches}
    att = {o: [] for o in want_b}
    for g, a, b, _ in net.branches:
        att[a].append(g)
        att[b].append(g)
    own_b, own_l = {}, {}
    for r, x in enumerate(ranks):
        seen = {}
        for i, (o, g, act, brs, cbs) in enumerate(x["buses"]):
            if o not in want_b:
                e("bus-unknown", "process %d holds bus %s which the input does not have" % (r, o))
                continue
            if gids and g != want_b[o]:
                e("bus-global-index", "process %d: bus %d has global index %d, given %d" % (r, o, g, want_b[o]))
            if act:
                own_b.setdefault(o, []).append(r)
            if o in seen:
                e("bus-twice-on-process", "process %d holds bus %d twice" % (r, o))
            seen[o] = i
        x["_pos"] = seen
        lseen = {}
        for i, (g, act, o1, o2, l1, l2) in enumerate(x["branches"]):
            if gids:
                if g not in want_l:
                    e("branch-unknown", "process %d holds branch %s which the input does not have" % (r, g))
                    continue
                if (o1, o2) != want_l[g]:
                    e("branch-ends", "process %d: branch %d joins %s, given %s" % (r, g, (o1, o2), want_l[g]))
            if g in lseen:
                e("branch-twice-on-process", "process %d holds branch %d twice" % (r, g))
            lseen[g] = i
            if act:
                own_l.setdefault(g, []).append(r)
        x["_lpos"] = lseen
    for o in want_b:
        c = own_b.get(o, [])
        if len(c) != 1:
            e("bus-not-owned-once", "bus %d is active on processes %s" % (o, c))
    lg = want_l if gids else {g: None for g in range(len(net.branches))}
    for g in lg:
        c = own_l.get(g, [])
        if len(c) != 1:
            e("branch-not-owned-once", "branch %d is active on processes %s" % (g, c))
    if bad:
        return bad
    for r, x in enumerate(ranks):
        nb, nl = len(x["buses"]), len(x["branches"])
        refs = {i: [] for i in range(nb)}
        for i, (g, act, o1, o2, l1, l2) in enumerate(x["branches"]):
            if not ghosts:
                for o, l in ((o1, l1), (o2, l2)):
                    p = x["_pos"].get(o, -1)
                    if l != p:
                        e("clean-local-index", "process %d: branch %d end %d says local bus %d, is at %d" % (r, g, o, l, p))
                    if p >= 0:
                        refs[p].append(i)
                continue
            if not (0 <= l1 < nb and 0 <= l2 < nb):
                e("branch-end-missing", "process %d: branch %d ends at local buses %d,%d of %d" % (r, g, l1, l2, nb))
                continue
            if x["buses"][l1][0] != o1 or x["buses"][l2][0] != o2:
                e("branch-local-ends", "process %d: branch %d (%d,%d) points to local buses %d,%d" % (r, g, o1, o2, x["buses"][l1][0], x["buses"][l2][0]))
            refs[l1].append(i)
            refs[l2].append(i)
            if not (x["buses"][l1][2] or x["buses"][l2][2]):
                e("branch-stray", "process %d holds branch %d but owns neither end" % (r, g))
        for i, (o, g, act, brs, cbs) in enumerate(x["buses"]):
            if sorted(brs) != sorted(refs[i]):
                e("bus-branch-list", "process %d: bus %d lists branches %s, local branches touching it are %s" % (r, o, brs, refs[i]))
            if not ghosts:
                if not act:
                    e("clean-ghost-left", "process %d: ghost bus %d survived clean()" % (r, o))
                continue
            other = [x["branches"][k][5] if x["branches"][k][4] == i else x["branches"][k][4] for k in brs if 0 <= k < nl]
            if cbs != other:
                e("bus-neighbour-list", "process %d: bus %d lists neighbours %s, expected %s" % (r, o, cbs, other))
            if act:
                have = sorted(x["branches"][k][0] for k in brs if 0 <= k < nl)
                if gids:
                    if have != sorted(att[o]):
                        e("ghosts-incomplete", "process %d owns bus %d with branches %s but holds only %s" % (r, o, sorted(att[o]), have))
                elif len(have) != len(att[o]):
                    e("ghosts-incomplete", "process %d owns bus %d with %d branches but holds %d" % (r, o, len(att[o]), len(have)))
            elif not brs:
                e("ghost-stray", "process %d holds ghost bus %d without a branch" % (r, o))
        if not ghosts and any(not b[1] for b in x["branches"]):
            e("clean-ghost-left", "process %d: a ghost branch survived clean()" % r)
        if x.get("tb") is not None and (x["tb"] != len(net.buses) or x["tl"] != len(net.branches)):
            e("totals", "process %d reports %d buses and %d branches in total, the input has %d and %d" % (r, x["tb"], x["tl"], len(net.buses), len(net.branches)))
    return bad
