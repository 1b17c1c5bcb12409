"""Random networks for the network, mapper and IO drivers."""


class Net:
    def __init__(self):
        self.buses = []      # (orig, gid, rank)
        self.branches = []   # (gid, o1, o2, rank)
        self.par = {}
        self.seed = 0
        self.kind = ""

    def text(self):
        s = ["net %d" % self.seed]
        for k, v in self.par.items():
            s.append("par %s %s" % (k, v))
        s.append("buses %d" % len(self.buses))
        s += ["%d %d %d" % b for b in self.buses]
        s.append("branches %d" % len(self.branches))
        s += ["%d %d %d %d" % b for b in self.branches]
        return "\n".join(s)


KINDS = ["tree", "ring", "grid", "star", "sparse", "dense", "islands", "path"]


def topology(rng, n, kind):
    e = set()

    def add(a, b):
        if a != b:
            e.add((min(a, b), max(a, b)))
    if kind == "tree":
        for i in range(1, n):
            add(i, rng.randrange(i))
    elif kind == "path":
        for i in range(1, n):
            add(i, i - 1)
    elif kind == "ring":
        for i in range(n):
            add(i, (i + 1) % n)
    elif kind == "star":
        for i in range(1, n):
            add(0, i)
    elif kind == "grid":
        w = max(2, int(n ** 0.5))
        for i in range(n):
            if (i + 1) % w and i + 1 < n:
                add(i, i + 1)
            if i + w < n:
                add(i, i + w)
    elif kind in ("sparse", "dense"):
        for i in range(1, n):
            add(i, rng.randrange(i))
        m = int(n * (0.4 if kind == "sparse" else 2.0))
        for _ in range(m):
            add(rng.randrange(n), rng.randrange(n))
    elif kind == "islands":
        h = max(2, n // 2)
        for i in range(1, h):
            add(i, rng.randrange(i))
        for i in range(h + 1, n):
            add(i, rng.randrange(h, i))
        for _ in range(n // 4):
            a = rng.randrange(h)
            add(a, rng.randrange(h))
    return sorted(e)


def make(rng, n, np, kind=None, dist=None, dup=0.0, ids=None):
    net = Net()
    net.seed = rng.randrange(1, 1 << 40)
    net.kind = kind or rng.choice(KINDS)
    edges = topology(rng, n, net.kind)
    if dup and rng.random() < dup and edges:
        edges = edges + [rng.choice(edges) for _ in range(rng.randint(1, 3))]
    ids = ids or rng.choice(["seq", "sparse", "big", "shuffled"])
    if ids == "seq":
        orig = list(range(1, n + 1))
    elif ids == "shuffled":
        orig = list(range(1, n + 1))
        rng.shuffle(orig)
    elif ids == "sparse":
        orig = rng.sample(range(1, 40 * n + 10), n)
    else:
        orig = rng.sample(range(1, 999997), n)
    gid = list(range(n))
    if rng.random() < 0.5:
        rng.shuffle(gid)
    lg = list(range(len(edges)))
    if rng.random() < 0.5:
        rng.shuffle(lg)
    dist = dist or rng.choice(["root", "random", "block", "last", "two"])

    def place(i, tot):
        if dist == "root":
            return 0
        if dist == "last":
            return np - 1
        if dist == "block":
            return min(np - 1, i * np // max(1, tot))
        if dist == "two":
            return rng.choice([0, np - 1])
        return rng.randrange(np)
    for i in range(n):
        net.buses.append((orig[i], gid[i], place(i, n)))
    for k, (a, b) in enumerate(edges):
        if rng.random() < 0.5:
            a, b = b, a
        net.branches.append((lg[k], orig[a], orig[b], place(k, len(edges))))
    net.dist = dist
    net.ids = ids
    return net


def case_text(cid, nets, cpar=None):
    s = ["case %s" % cid]
    for k, v in (cpar or {}).items():
        s.append("cpar %s %s" % (k, v))
    s += [x.text() for x in nets]
    s.append("end")
    return "\n".join(s) + "\n"


def color_sizes(np, k, style):
    sz = [0] * k
    for r in range(np):
        sz[r % k if style == 0 else r * k // np] += 1
    return sz
