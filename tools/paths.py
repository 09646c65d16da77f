"""Cases for the two shortest-path searches (C17, C18)."""
import graphs


def potential(adj, s):
    """The certificate for a big graph: least weights from s, -1 out of reach."""
    import heapq
    d, q = {s: 0}, [(0, s)]
    while q:
        x, u = heapq.heappop(q)
        if x > d[u]:
            continue
        for v, w in adj[u]:
            if x + w < d.get(v, x + w + 1):
                d[v] = x + w
                heapq.heappush(q, (x + w, v))
    return [d.get(v, -1) for v in range(len(adj))]


def big_search(rng, n):
    """A graph of n vertices: a long chain, a strip, a tree or a loose net, numbered in any order."""
    b = [[] for _ in range(n)]
    kind = rng.choice(["chain", "chain", "strip", "net", "fan"])
    top = rng.choice([0, 1, 9, 1000])
    if kind == "chain":
        for x in range(n - 1):
            b[x].append([x + 1, rng.randint(0, top)])
        for _ in range(rng.choice([0, 3, 50])):  # shortcuts, most of them no gain, and ways back
            x, y = rng.randrange(n), rng.randrange(n)
            b[x].insert(0, [y, max(0, y - x) * rng.choice([0, top, top, top + 1]) // rng.choice([1, 1, 2])])
    elif kind == "strip":
        h = rng.randint(2, 4)
        for v in range(n):
            for t in (v + 1, v + h, v - 1, v - h):
                if 0 <= t < n and rng.random() < .8:
                    b[v].append([t, rng.randint(0, top)])
    elif kind == "fan":  # heavy first, so that each vertex is met again and again
        for v in range(1, n - 1):
            b[0].append([v, rng.randint(1, 1000)])
            b[v].append([n - 1, rng.randint(0, 1000)])
    else:
        for v in range(n):
            b[v] = [[rng.randrange(n), rng.randint(0, top)] for _ in range(rng.choice([0, 1, 2, 3]))]
    s, t = 0, rng.choice([n - 1, n - 1, n // 2])
    if rng.random() < .5:
        p = rng.sample(range(n), n)
        c = [[] for _ in range(n)]
        for v in range(n):
            c[p[v]] = [[p[x], w] for x, w in b[v]]
        b, s, t = c, p[s], p[t]
    return {"k": "search", "adj": b, "s": s, "t": t, "ids": rng.choice([list(range(n)), [v - n // 2 for v in range(n)]]),
            "pot": potential(b, s)}


def big_matrix(rng, n):
    w = [[0] * (i + 1) for i in range(n)]
    order = rng.sample(range(n), n) if rng.random() < .6 else list(range(n))
    put = lambda x, y, v: w[max(x, y)].__setitem__(min(x, y), v)
    for x, y in zip(order, order[1:]):  # a path through all of them
        put(x, y, rng.choice([1, 2, 9]))
    for _ in range(rng.choice([0, 2, 40, n])):
        put(rng.randrange(n), rng.randrange(n), rng.choice([1, 50, 1000, 9 * n]))
    if rng.random() < .3:  # cut
        x, y = order[n // 2], order[n // 2 + 1]
        put(x, y, 0)
    s, t = order[0], order[rng.choice([n - 1, n - 1, n // 2, n // 3])]
    if rng.random() < .5:
        s, t = t, s
    full = [[[j, w[max(i, j)][min(i, j)]] for j in range(n) if w[max(i, j)][min(i, j)]] for i in range(n)]
    return {"k": "matrix", "w": w, "s": s, "t": t, "junk": rng.choice([0, 1, 3]), "den": 1, "extra": rng.choice([0, 2]),
            "pot": potential(full, s)}


def c17(ctx):
    rng, cases = ctx.rng, []

    def add(adj, s, t, ids=None):
        cases.append({"k": "search", "adj": adj, "s": s, "t": t, "ids": ids or list(range(len(adj)))})

    gen = ctx.gen("GenWeighted", "GenWeighted", env={"VERTS": "3", "EDGES": str(ctx.pick(3, 4)), "WEIGHT": str(ctx.pick(2, 1))}, workers=4)
    for i, a in enumerate(gen):
        add(a, 0, 2)
        if i % 7 == 0:
            add(a, rng.randrange(3), rng.randrange(3))
    for i in range(ctx.pick(1500, 12000)):
        a = graphs.random_graph(rng, rng.choice([6, 10, 14]))
        n = len(a)
        if rng.random() < 0.3:  # both directions
            for v in range(n):
                for t in list(a[v]):
                    if rng.random() < 0.5:
                        a[t].append(v)
        top = rng.choice([0, 1, 2, 5, 20, 1000, 1000000])
        ws = lambda: rng.choice([0, rng.randint(0, top), rng.randint(0, top), top])
        b = [[[t, ws()] for t in l] for l in a]
        ids = rng.choice([list(range(n)), [v + 1 for v in range(n)], rng.sample(range(-50, 500), n),
                          rng.sample(range(-2**31, 2**31 - 1), n)])
        s = max(range(n), key=lambda v: len(a[v])) if rng.random() < 0.5 else rng.randrange(n)
        add(b, s, rng.randrange(n), ids)
    for i in range(ctx.pick(1500, 15000)):  # many paths waiting at once, of very different weights
        n = rng.choice([8, 12, 16, 20])
        f = lambda: rng.choice([rng.randint(0, 9), rng.randint(0, 100), rng.choice([0, 1, 10, 100, 1000, 10000]), rng.randint(0, 2000)])
        b = [[[t, f()] for t in rng.sample(range(n), rng.randint(0, min(n, rng.choice([3, 6, 12]))))] for _ in range(n)]
        if rng.random() < .4:  # heavy edges out of the source, light ones elsewhere
            b = [[[t, w if v else w * 7 + 50] for t, w in l] for v, l in enumerate(b)]
        if rng.random() < .3:  # a long light chain beside heavy shortcuts
            v = rng.sample(range(n), n)
            for x, y in zip(v, v[1:]):
                b[x].insert(rng.randint(0, len(b[x])), [y, rng.randint(0, 3)])
        add(b, rng.choice([0, rng.randrange(n)]), rng.randrange(n))
    for i in range(ctx.pick(600, 6000)):  # ways of nearly the same weight
        n = rng.choice([3, 4, 6, 9, 12])
        h, near = heights(rng, n)
        b = [[[t, near(h[t] - h[v])] for t in rng.sample(range(n), rng.randint(0, n)) if h[t] >= h[v]] for v in range(n)]
        add(b, h.index(min(h)) if rng.random() < .7 else rng.randrange(n), h.index(max(h)) if rng.random() < .7 else rng.randrange(n))
    for i in range(ctx.pick(12, 100)):  # long paths
        n = rng.choice([255, 257, 300])
        v = list(range(n))
        if rng.random() < .5:
            rng.shuffle(v)
        b = [[] for _ in range(n)]
        for x, y in zip(v, v[1:]):
            b[x].append([y, rng.choice([0, 1, 1000])])
        if rng.random() < .6:
            x, y = sorted(rng.sample(range(n), 2))
            b[v[x]].insert(0, [v[y], rng.choice([0, 50000, 300000])])
        add(b, v[rng.choice([0, 0, 3])], v[rng.choice([n - 1, n - 1, n - 3, n // 2])])
    sizes = [257, 1000, 4000, 33000, 66000]
    for n in sizes + [rng.choice(sizes) for _ in range(ctx.pick(5, 60))]:
        cases.append(big_search(rng, n + rng.randint(0, 3)))
    for i in range(ctx.pick(100, 1000)):  # weights near the greatest an i32 can be, sums beyond it
        n = rng.choice([2, 3, 4, 6, 9])
        mul, top = rng.choice([(2 ** 31 - 1, 1), (2 ** 30, 1), (2 ** 28, 7), (2 ** 20, 2047)])
        b = [[[t, rng.randint(0, top)] for t in rng.sample(range(n), rng.randint(0, min(n, 4)))] for _ in range(n)]
        for v in range(n - 1):
            if rng.random() < .8:
                b[v].insert(0, [v + 1, top])
        add(b, 0, rng.choice([n - 1, n - 1, rng.randrange(n)]))
        cases[-1]["mul"] = mul
    for i in range(ctx.pick(30, 300)):  # grids: many ties
        w, h = rng.randint(2, 5), rng.randint(2, 4)
        b = [[] for _ in range(w * h)]
        ties = rng.random() < 0.5
        for x in range(w):
            for y in range(h):
                for dx, dy in ((1, 0), (0, 1), (-1, 0), (0, -1)):
                    if 0 <= x + dx < w and 0 <= y + dy < h:
                        b[x * h + y].append([(x + dx) * h + y + dy, 1 if ties else rng.randint(0, 9)])
        for l in b:
            rng.shuffle(l)
        add(b, rng.randrange(w * h), rng.randrange(w * h))
    return cases


def heights(rng, n):
    """Places on a line, and weights little above the distances: all ways forth weigh nearly the same."""
    top = rng.choice([30, 1000, 1000000])
    h = [rng.randint(0, top) for _ in range(n)]
    if rng.random() < .5:  # some are very near to each other
        for i in range(1, n):
            if rng.random() < .4:
                h[i] = h[rng.randrange(i)] + rng.choice([0, 1, 1, 2])
    if rng.random() < .5:  # the farthest one is near the one before it
        a, b = sorted(range(n), key=lambda i: h[i])[-2:]
        h[b] = h[a] + rng.choice([1, 1, 2])
    slack = rng.choice([1, 3, 10])
    return h, lambda d: d + rng.choice([0, 1, rng.randint(0, slack)])


def c18(ctx):
    rng, cases = ctx.rng, []
    import itertools
    for n in (1, 2, 3):  # every small matrix
        for m in itertools.product((0, 1, 2), repeat=n * (n + 1) // 2 - (n if n == 3 else 0)):
            it = iter(m)
            w = [[0 if n == 3 and i == j else next(it) for j in range(i + 1)] for i in range(n)]
            for s in range(n):
                for t in range(n):
                    cases.append({"k": "matrix", "w": w, "s": s, "t": t, "junk": rng.choice([0, 1, 3]), "den": 1, "extra": 0})
    for i in range(ctx.pick(2500, 25000)):
        n = rng.choice([2, 3, 4, 5, 6, 7, 8, 10, 14, 14, 20]) if i % 100 else rng.choice([33, 65, 70])
        top = rng.choice([1, 2, 3, 9, 100, 100000])
        p = rng.choice([0.1, 0.25, 0.5, 0.8, 1])
        w = [[rng.randint(1, top) if rng.random() < p else 0 for j in range(i + 1)] for i in range(n)]
        if rng.random() < 0.7:
            for i in range(n):
                w[i][i] = 0
        den, mul = rng.choice([1, 1, 2, 8, 64, 1024, 2 ** 20, 2 ** 40]), rng.choice([1, 1, 1, 2 ** 4, 2 ** 10, 2 ** 20, 2 ** 50])
        if top * n * mul / den >= 2 ** 31 - 1:
            mul = 1
        cases.append({"k": "matrix", "w": w, "s": rng.randrange(n), "t": rng.randrange(n),
                      "junk": rng.choice([0, 1, 1, top]), "den": den, "mul": mul, "extra": rng.choice([0, 0, 1, 2])})
    for i in range(ctx.pick(1200, 12000)):  # ways of nearly the same weight
        n = rng.choice([3, 4, 6, 9, 12])
        h, near = heights(rng, n)
        p = rng.choice([.5, .8, 1])
        w = [[near(abs(h[i] - h[j])) if j < i and rng.random() < p else 0 for j in range(i + 1)] for i in range(n)]
        s, t = (h.index(min(h)), h.index(max(h))) if rng.random() < .6 else (rng.randrange(n), rng.randrange(n))
        cases.append({"k": "matrix", "w": w, "s": s, "t": t, "junk": rng.choice([0, 1]), "den": rng.choice([1, 1, 64]), "extra": 0})
    for i in range(ctx.pick(8, 60)):  # numbers of vertices that no byte holds
        cases.append(big_matrix(rng, rng.choice([129, 200, 255, 256, 257, 300])))
    return cases


def checks(Check):
    tr = {"module": "TraceWeights", "cfg": "TraceWeights"}
    deep = lambda m, c, **kw: dict(module=m, cfg=c, tiers=("thorough",), workers=8, **kw)
    return [
        Check("C17", tr, c17, [{"module": "SearchImpl", "cfg": "MCSearch", "workers": 4}, {"module": "MCPotential", "cfg": "MCPotential"},
                               deep("MCPotential", "MCPotentialDeep"), deep("SearchImpl", "MCSearchDeep"),
                               {"module": "SearchImpl", "cfg": "MCSearchMut", "expect": "violated"},
                               {"module": "SearchImpl", "cfg": "MCSearchMut2", "expect": "violated"}], limit_s=20),
        Check("C18", tr, c18, [{"module": "DadImpl", "cfg": "MCDad"}, {"module": "MCPotential", "cfg": "MCPotential"}, deep("DadImpl", "MCDadDeep"),
                               {"module": "DadImpl", "cfg": "MCDadMut", "expect": "violated"}], limit_s=20),
    ]
