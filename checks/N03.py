from vlib.netcheck import *


class N03(NetCheck):
    id = "N03"
    mode = "index"
    plan = {"quick": [(1, 10), (2, 60), (3, 60), (4, 50), (6, 30), (8, 20)],
            "thorough": [(1, 60), (2, 500), (3, 500), (4, 500), (5, 300), (6, 300), (7, 200), (8, 300)]}
    rule = ("a case is one partitioned random network, optionally renumbered (all indices, or only ghosts), wired by the factory and cloned into a "
            "network of other component types; every index, look-up (each bus and branch of the input in both orders, and absent ones), component "
            "pointer and clone entry is compared with the input network; distinct by network seed with several processes or renumbering")
    assumptions = ["no two branches join the same ordered pair of buses (GridPACK merges parallel lines into one branch)"]

    def params(self, net, np):
        r = self.rng
        net.par["reset"] = r.choice([0, 0, 1, 1, 2])
        net.par["ref"] = r.choice(net.buses)[0] if r.random() < 0.8 else -1
        net.par["clone"] = int(r.random() < 0.6)
        net.par["predirty"] = r.choice([0, 0, 3])

    def judge(self, job, res):
        for case, color, net, seqs in self.groups(job, res):
            flag = net.par["reset"]
            st = [{x["t"]: x for x in q} for q in seqs]
            idx = [x["net"] for x in st]
            wire = [x["wire"] for x in st]
            bad = []

            def e(k, m):
                if len(bad) < 12:
                    bad.append((k, m))
            if flag == 1:
                bad += self.renumbered(net, idx)
            else:
                bad += check_distributed(net, idx)
                for r in idx:
                    if r["bad"]:
                        e("payload", r["what"])
            owner_mv = {}
            expect = 0
            for r, (ix, w) in enumerate(zip(idx, wire)):
                nb = len(ix["buses"])
                # matrix indices of owned buses: consecutive, process by process
                for i, (o, g, act, brs, cbs) in enumerate(ix["buses"]):
                    wo, wg, mv, ref, nbr, nlr, loaded = w["buses"][i]
                    if (wo, wg) != (o, g):
                        e("component-index", "process %d bus %d/%d: component says original %d global %d" % (r, o, g, wo, wg))
                    if nbr != cbs or nlr != brs:
                        e("component-neighbours", "process %d bus %d: component sees buses %s branches %s, network says %s %s" % (r, o, nbr, nlr, cbs, brs))
                    if act:
                        if mv != expect:
                            e("matrix-index", "process %d bus %d: matrix index %d, expected %d" % (r, o, mv, expect))
                        owner_mv[o] = expect
                        expect += 1
                    if loaded != o:
                        e("load", "process %d bus %d loaded the data of %d" % (r, o, loaded))
            refbus = net.par["ref"]
            for r, (ix, w) in enumerate(zip(idx, wire)):
                for i, (o, g, act, brs, cbs) in enumerate(ix["buses"]):
                    mv, ref = w["buses"][i][2], w["buses"][i][3]
                    if not act and mv != owner_mv.get(o):
                        e("matrix-index-ghost", "process %d ghost bus %d: matrix index %d, owner has %s" % (r, o, mv, owner_mv.get(o)))
                    want = 1 if (act and o == refbus) else 0
                    if ref != want:
                        e("reference-bus", "process %d bus %d: reference flag %d, expected %d" % (r, o, ref, want))
                    if want and w["ref"] != i:
                        e("reference-bus", "process %d: reference bus is local %d, network says %d" % (r, i, w["ref"]))
                if w["ref"] != -1 and not (ix["buses"][w["ref"]][0] == refbus):
                    e("reference-bus", "process %d: network names local %d as reference" % (r, w["ref"]))
                for i, (g, act, o1, o2, l1, l2) in enumerate(ix["branches"]):
                    wg, b1o, b2o, b1g, b2g, m1, m2, p1, p2, loaded = w["branches"][i]
                    if (wg, b1o, b2o, p1, p2) != (g, o1, o2, l1, l2):
                        e("branch-wiring", "process %d branch %d (%d,%d) at local (%d,%d): component says %s" % (r, g, o1, o2, l1, l2, (wg, b1o, b2o, p1, p2)))
                    elif (b1g, b2g) != (ix["buses"][l1][1], ix["buses"][l2][1]):
                        e("branch-wiring-global", "process %d branch %d: component says ends %s, buses are %s" % (r, g, (b1g, b2g), (ix["buses"][l1][1], ix["buses"][l2][1])))
                    if (m1, m2) != (owner_mv.get(o1), owner_mv.get(o2)):
                        e("branch-matrix-index", "process %d branch (%d,%d): matrix indices %s, expected %s" % (r, o1, o2, (m1, m2), (owner_mv.get(o1), owner_mv.get(o2))))
                    if flag != 1 and loaded != g:
                        e("load", "process %d branch %d loaded the data of %d" % (r, g, loaded))
                pos, lpos = {}, {}
                for i, b in enumerate(ix["buses"]):
                    pos.setdefault(b[0], []).append(i)
                for i, b in enumerate(ix["branches"]):
                    lpos.setdefault((b[2], b[3]), []).append(i)
                for k, (o, _, _) in enumerate(net.buses):
                    if sorted(w["lookb"][k]) != pos.get(o, []):
                        e("bus-lookup", "process %d: look-up of bus %d gives %s, it is at %s" % (r, o, w["lookb"][k], pos.get(o, [])))
                for k, (_, a, b, _) in enumerate(net.branches):
                    f, t = w["lookl"][k]
                    want = lpos.get((a, b), [])
                    if sorted(f) != want or sorted(t) != want:
                        e("branch-lookup", "process %d: look-up of branch (%d,%d) gives %s and reversed %s, it is at %s" % (r, a, b, f, t, want))
                if w["absent"]:
                    e("lookup-absent", "look-up of an absent bus or branch returned something")
                self.stat("lookups_checked", len(w["lookb"]) + 2 * len(w["lookl"]))
                self.stat("components_checked", len(w["buses"]) + len(w["branches"]))
                if "clone" in st[r]:
                    c = st[r]["clone"]
                    self.stat("clones_checked")
                    if c["buses"] != ix["buses"] or c["branches"] != ix["branches"] or (c["tb"], c["tl"]) != (ix["tb"], ix["tl"]):
                        e("clone-differs", "process %d: the cloned network's topology differs" % r)
                    if c["bad"]:
                        e("clone-data", "process %d: %d data collections differ in the clone" % (r, c["bad"]))
                    if c["shared"]:
                        e("clone-shares-data", "process %d: changing the clone's data changed the original" % r)
                    if c["ref"] != w["ref"]:
                        e("clone-reference", "process %d: clone has reference bus %d, original %d" % (r, c["ref"], w["ref"]))
            for k, m in bad:
                self.v(k, case, "network %s n=%d on %d processes, reset %d: %s" % (net.kind, len(net.buses), len(seqs), flag, m), job)
            self.ok((net.seed,) if len(seqs) > 1 or flag else None,
                    {"kind": net.kind, "ids": net.ids, "buses": len(net.buses), "processes": len(seqs), "par": dict(net.par)})

    def renumbered(self, net, idx):
        """after a full reset: the owned indices are 0..N-1 in process order and ghosts agree"""
        bad = check_distributed(net, [dict(x) for x in idx], gids=False) if False else []
        nxt, g_of, ln, l_of = 0, {}, 0, {}
        for r, x in enumerate(idx):
            for o, g, act, _, _ in x["buses"]:
                if act:
                    if g != nxt:
                        bad.append(("renumber-bus", "process %d bus %d got global index %d, expected %d" % (r, o, g, nxt)))
                    g_of[o] = g
                    nxt += 1
            for g, act, o1, o2, _, _ in x["branches"]:
                if act:
                    if g != ln:
                        bad.append(("renumber-branch", "process %d branch (%d,%d) got global index %d, expected %d" % (r, o1, o2, g, ln)))
                    l_of[(o1, o2)] = g
                    ln += 1
        for r, x in enumerate(idx):
            for o, g, act, _, _ in x["buses"]:
                if not act and g != g_of.get(o):
                    bad.append(("renumber-ghost-bus", "process %d ghost bus %d has global index %d, its owner %s" % (r, o, g, g_of.get(o))))
            for g, act, o1, o2, _, _ in x["branches"]:
                if not act and g != l_of.get((o1, o2)):
                    bad.append(("renumber-ghost-branch", "process %d ghost branch (%d,%d) has global index %d, its owner %s" % (r, o1, o2, g, l_of.get((o1, o2)))))
        if (nxt, ln) != (len(net.buses), len(net.branches)):
            bad.append(("renumber-count", "%d buses and %d branches are owned, expected %d and %d" % (nxt, ln, len(net.buses), len(net.branches))))
        return bad[:12]
