from vlib.netcheck import *

SIG = [None, "a", "bb", "flow"]


def wtext(seed, kind, tag, sig, size):
    h = hsh(seed, kind, tag, len(sig) if sig else 99)
    if h % 4 == 0:
        return None
    t = ("B" if kind == 0 else "L") + str(tag) + ":" + (sig or "-") + ":" + "x" * (h % 23) + "\n"
    if len(t) >= size:
        t = t[:size - 2] + "\n"
    return t


def witem(seed, kind, tag, sig):
    h = hsh(seed, 10 + kind, tag, len(sig) if sig else 99)
    return None if h % 3 == 0 else [tag, kind, hval(h)]


class S01(NetCheck):
    id = "S01"
    mode = "sio"
    plan = {"quick": [(1, 6), (2, 40), (3, 40), (4, 30), (6, 16), (8, 12)],
            "thorough": [(1, 40), (2, 400), (3, 400), (4, 400), (5, 300), (6, 200), (7, 150), (8, 250)]}
    rule = ("a case is one partitioned random network and a random sequence of bus and branch listings, headers, string gathers and record "
            "gathers with different signals (components answer or stay silent by a hash of their identity and the signal), over one or two output "
            "files shared by the bus and the branch writer; the file text and gathered vectors must equal the concatenation over all components in "
            "global-index order; distinct by (network, plan) with at least two answering components on at least two processes")
    assumptions = ["component texts fit the declared maximum length", "at least three buses per process"]

    def params(self, net, np):
        r = self.rng
        net.par["len"] = r.choice([24, 25, 31, 32, 48, 64, 127])
        net.par["plan"] = "".join(r.choice("bblllhkstgm" + ("o" if i else "")) + str(r.randrange(4)) for i in range(r.randint(2, 9)))
        if net.par["plan"].count("o") > 1:
            net.par["plan"] = net.par["plan"].replace("o", "b")

    def judge(self, job, res):
        for case, color, net, seqs in self.groups(job, res):
            recs = [q[0] for q in seqs]
            size, plan, seed = net.par["len"], net.par["plan"], net.seed
            bo = [o for o, g, _ in sorted(net.buses, key=lambda b: b[1])]
            lo = [g for g, a, b, _ in sorted(net.branches)]
            files, got = ["", ""], []
            f = 0
            ans = 0
            for i in range(0, len(plan), 2):
                c, d = plan[i], int(plan[i + 1])
                sig = SIG[d]
                if c in "bs":
                    l = [t for t in (wtext(seed, 0, o, sig, size) for o in bo) if t]
                elif c in "lt":
                    l = [t for t in (wtext(seed, 1, g, sig, size) for g in lo) if t]
                elif c == "g":
                    l = [t for t in (witem(seed, 0, o, sig) for o in bo) if t]
                elif c == "m":
                    l = [t for t in (witem(seed, 1, g, sig) for g in lo) if t]
                elif c == "h":
                    l = ["# header %d\n" % d]
                elif c == "k":
                    l = ["# bheader %d\n" % d]
                elif c == "o":
                    f = 1
                    continue
                ans += len(l)
                if c in "blhk":
                    files[f] += "".join(l)
                else:
                    got.append(l)
            r0 = recs[0]
            for n, t, w in (("first", r0["text"], files[0]), ("second", r0["text2"], files[1])):
                if t != w:
                    gl, wl = t.splitlines(), w.splitlines()
                    k = next((k for k in range(min(len(gl), len(wl))) if gl[k] != wl[k]), min(len(gl), len(wl)))
                    key = "listing-order" if sorted(gl) == sorted(wl) else "listing-content"
                    self.v(key, case, "%s file: %d lines, expected %d; first difference at line %d: %r, expected %r (plan %s, n=%d on %d processes)" % (
                        n, len(gl), len(wl), k, gl[k:k + 1], wl[k:k + 1], plan, len(net.buses), len(recs)), job)
            if r0["got"] != got:
                k = next((k for k in range(min(len(r0["got"]), len(got))) if r0["got"][k] != got[k]), -1)
                self.v("gathered", case, "gather %d returned %s, expected %s (plan %s)" % (k, str(r0["got"][k])[:600], str(got[k])[:600], plan), job)
            for r in recs[1:]:
                if any(r["got"]):
                    self.v("gathered-elsewhere", case, "process %d got %s" % (r["me"], str(r["got"])[:300]), job)
            self.stat("listings", len(plan) // 2)
            self.stat("items_written", ans)
            self.ok((net.seed, plan) if ans > 1 and len(recs) > 1 else None,
                    {"kind": net.kind, "buses": len(net.buses), "processes": len(recs), "plan": plan, "lines": files[0].count("\n")})
