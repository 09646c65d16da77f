"""Cases for graph construction and the graph algorithms (C08-C16)."""


def adj_of(n, edges):
    adj = [[] for _ in range(n)]
    for f, t in edges:
        adj[f].append(t)
    return adj


HUGE = [254, 255, 256, 257, 258, 300]
ALL = ["path", "down", "cycle", "star", "instar", "pairs", "tree", "wheel", "comb", "comb2"]
SHAPES = {"disjoint": ["path", "star", "pairs", "tree", "comb"], "chains": ["star", "instar", "pairs", "tree", "wheel", "comb2"]}
BIG = [31, 32, 33, 34, 63, 64, 65, 66, 100, 127, 128, 129, 130]


def random_graph(rng, maxn=14, dag=None, n=None):
    """Random multigraphs of many shapes; vertices are numbered at random."""
    n = n or rng.choice([1, 2, 3, 4, 5, 6, 8, 10, maxn])
    style = rng.randrange(9)
    edges = []
    if style == 0:  # sparse
        edges = [(rng.randrange(n), rng.randrange(n)) for _ in range(rng.randint(0, n))]
    elif style == 1:  # denser
        edges = [(rng.randrange(n), rng.randrange(n)) for _ in range(rng.randint(0, 3 * n))]
    elif style == 2:  # random DAG
        edges = [tuple(sorted(rng.sample(range(n), 2))) for _ in range(rng.randint(0, 2 * n))] if n > 1 else []
    elif style == 3:  # paths glued together
        v = list(range(n))
        for _ in range(rng.randint(1, 3)):
            rng.shuffle(v)
            p = v[: rng.randint(1, n)]
            edges += list(zip(p, p[1:]))
    elif style == 4:  # hubs joined by chains
        hubs = rng.randint(1, max(1, min(3, n)))
        nxt = hubs
        while nxt < n:
            k = rng.randint(1, 3)
            w = [rng.randrange(hubs)] + list(range(nxt, min(n, nxt + k))) + [rng.randrange(hubs)]
            nxt += k
            edges += list(zip(w, w[1:]))
        edges += [(rng.randrange(hubs), rng.randrange(hubs)) for _ in range(rng.randint(0, 2))]
    elif style == 5:  # one or more cycles, perhaps with tails
        v = list(range(n))
        rng.shuffle(v)
        k = rng.randint(1, n)
        edges = list(zip(v[:k], v[1:k] + v[:1]))
        edges += [(rng.randrange(n), rng.randrange(n)) for _ in range(rng.randint(0, 2))]
    elif style == 6:  # tree, edges down or up
        edges = [(rng.randrange(i), i) for i in range(1, n)]
        if rng.random() < 0.5:
            edges = [(t, f) for f, t in edges]
        if rng.random() < 0.3 and n > 1:
            edges = [(t, f) if rng.random() < 0.5 else (f, t) for f, t in edges]
    elif style == 7:  # pairs first, then joined: components that merge in all orders
        v = list(range(n))
        rng.shuffle(v)
        edges = [(v[i], v[i + 1]) for i in range(0, n - 1, 2)]
        edges += [(rng.choice(v), rng.choice(v)) for _ in range(rng.randint(0, n // 2))]
    else:  # layered, with parallel edges and long edges
        lay = [rng.randint(0, 4) for _ in range(n)]
        for _ in range(2 * n):
            a, b = rng.randrange(n), rng.randrange(n)
            if lay[a] > lay[b]:
                edges += [(a, b)] * rng.choice([1, 1, 1, 2])
    if dag and style != 2:
        edges = [(min(e), max(e)) for e in edges if e[0] != e[1]]
    if rng.random() < 0.15 and edges and not dag:
        v = rng.randrange(n)
        edges.insert(rng.randint(0, len(edges)), (v, v))
    if rng.random() < 0.6:
        rng.shuffle(edges)
    perm = list(range(n))
    if rng.random() < 0.7:
        rng.shuffle(perm)
    pad = rng.choice([0, 0, 0, 1, 2])
    if pad:  # isolated vertices in between
        perm = [p + (pad if p >= n // 2 else 0) for p in perm]
    return adj_of(n + pad, [(perm[f], perm[t]) for f, t in edges])


def long_graph(rng):
    """More than 255 vertices in a row, in one component, or around one vertex."""
    n = rng.choice(HUGE)
    v = list(range(n))
    r = rng.random()
    if r < .35:
        v = v[::-1]
    elif r < .6:
        rng.shuffle(v)
    kind = rng.choice(["path", "path", "cycle", "star", "instar", "tree", "two"])
    if kind == "path":
        e = list(zip(v, v[1:]))
    elif kind == "cycle":
        e = list(zip(v, v[1:] + v[:1]))
    elif kind == "star":
        e = [(v[0], t) for t in v[1:]]
    elif kind == "instar":
        e = [(f, v[0]) for f in v[1:]]
    elif kind == "tree":
        e = [(v[rng.randrange(i)], v[i]) for i in range(1, n)]
    else:  # two paths, joined late or not at all
        k = rng.randrange(1, n)
        e = list(zip(v[:k], v[1:k])) + list(zip(v[k:], v[k + 1:])) + ([(v[0], v[-1])] if rng.random() < .5 else [])
    if rng.random() < .4:
        rng.shuffle(e)
    if rng.random() < .3:
        e.insert(rng.randint(0, len(e)), rng.choice(e))
    return adj_of(n, e)


def fan_graph(rng, dag=False):
    """Vertices with many out-edges or many in-edges, and a few longer paths."""
    k = rng.choice([5, 8, 9, 10, 12, 16, 17, 18, 31, 32, 33, 34, 64, 65, 66, 128, 129, 130, 257, 300])
    n = k + rng.randint(2, 12)
    e = []
    for h in range(rng.choice([1, 1, 2, 3])):
        m = min(n - 1 - h, k + rng.randint(-1, 1))
        e += [(h, t) for t in rng.sample(range(h + 1, n), m)]
    for _ in range(rng.randint(1, 3)):
        w = sorted(rng.sample(range(1, n), min(n - 1, rng.randint(2, 7))))
        e += list(zip(w, w[1:]))
    if rng.random() < .4:
        e = [(n - 1 - t, n - 1 - f) for f, t in e]
    if not dag and rng.random() < .2:
        f, t = rng.choice(e)
        e.append((t, f) if rng.random() < .7 else (f, f))
    rng.shuffle(e)
    v = list(range(n))
    if rng.random() < .8:
        rng.shuffle(v)
    return adj_of(n, [(v[f], v[t]) for f, t in e])


def links(rng):
    """Small components first, then edges that join them in an order that links late finds to early ones (or the
    reverse, or crosswise), as deep as there are components."""
    m = rng.choice([3, 5, 8, 12, 20, 30, 40, 70, 130, 260, 300])
    low = rng.choice([0, 1, 1, 2, 3])
    k = low + m + rng.randint(0, 4)  # some stay by themselves, or are joined at the end
    o, own = rng.choice(["down", "down", "up", "zigzag", "random", "tree", "inward"]), rng.choice([.8, 1, 1])
    if o in ("down", "up"):
        js = [(i, i + 1) for i in range(m - 1)]
        js = js[::-1] if o == "down" else js
    elif o == "zigzag":
        js = [(i, i + 2) for i in range(m - 2)][::rng.choice([1, -1])] + [(0, 1)]
    elif o == "tree":
        js = sorted(((i, (i - 1) // 2) for i in range(1, m)), reverse=rng.random() < .7)
    elif o == "inward":
        js = [(m // 2 - 1 - i, m // 2 - i) for i in range(m // 2)] + [(m - 1 - i, m - 2 - i) for i in range(m // 2 - 1)]
    else:
        js = [(i, rng.randrange(i)) for i in range(1, m)]
        rng.shuffle(js)
    if rng.random() < .4:
        js = [j for j in js if rng.random() > 1 / m]
    for _ in range(rng.choice([0, 0, 1, 3])):
        js.insert(rng.randint(len(js) // 2, len(js)), (rng.choice([m - 1, rng.randrange(m)]), rng.choice([0, m - 1, rng.randrange(m)])))
    js = [(a + low, b + low) for a, b in js]
    for i in rng.sample(range(k), k):
        if (i < low or i >= low + m) and rng.random() < .6:
            js.append((low + rng.choice([m - 1, m - 1, m // 2, 0, rng.randrange(m)]), i))
    n = 2 * k + len(js)
    e = [(i, n - k + i) for i in range(k)] if rng.random() < .5 else [(i, n - 1 - i) for i in range(k)]
    for i, (a, b) in enumerate(js):  # joined by an edge of their own, or by a new vertex
        f, t = rng.sample([a, b], 2)
        if rng.random() < own:
            e += [(k + i, e[f][1]), (k + i, e[t][1])]
        else:
            e += [(e[f][1], rng.choice(e[t]))]
    return adj_of(n, list(dict.fromkeys(e)))


def giants(ctx, what, shapes, **kw):
    """More vertices, edges or components than 16 bits can count; the driver expands the shape."""
    return [dict(k="graph", what=what, shape=s, n=70000, **kw) for s in shapes] + \
        [dict(k="graph", what=what, shape=ctx.rng.choice(shapes), n=n, **kw) for n in (65535, 65536, 65537, 65538)]


def big_graph(rng, n=None, dag=False, kind=None):
    """A graph with very many vertices and no parallel edges, and a layering of it if it is acyclic."""
    n = n or rng.choice([256, 257, 300, 400, 520, 1000, 3000])
    kind = kind or rng.choice(["forest", "sparse", "hubs", "merge", "ladder", "random"])
    e = set()
    if kind == "forest":
        e = {(i, rng.randrange(max(0, i - rng.choice([1, 3, n])), i)) for i in range(1, n) if rng.random() < .9}
    elif kind == "sparse":
        e = {tuple(sorted(rng.sample(range(n), 2), reverse=True)) for _ in range(n)}
    elif kind == "hubs":  # a few vertices joined by chains
        hubs, nxt = rng.choice([1, 2, 5, 300 if n > 900 else 3]), 0
        nxt = hubs
        while nxt < n:
            k = rng.choice([1, 1, 2, 3, 300])
            w = [rng.randrange(hubs)] + list(range(nxt, min(n, nxt + k))) + [rng.randrange(hubs)]
            nxt += k
            e |= {x for x in zip(w, w[1:])}
    elif kind == "merge":  # very many components, joined only at the end
        m = n // 2
        e = {(i, m + i) for i in range(m)}
        for i in range(m, n):  # by edges that come later
            r = rng.random()
            if r < .4:
                e.add((i, rng.randrange(n)))
            elif r < .6 and i + 1 < n:
                e.add((i, i + 1))
    elif kind == "ladder":  # two long paths with rungs
        m = n // 2
        e = {(i + 1, i) for i in range(m - 1)} | {(m + i + 1, m + i) for i in range(m - 1)}
        e |= {(m + i, i) for i in range(m) if rng.random() < .3}
    else:
        e = {(rng.randrange(n), rng.randrange(n)) for _ in range(n * 3 // 4)}
    if kind in ("merge", "random", "hubs") and (dag or rng.random() < .5):
        e = {(max(x), min(x)) for x in e if x[0] != x[1]}
    elif rng.random() < .1 and not dag:
        v = rng.randrange(n)
        e.add((v, v))
    perm = list(range(n))
    if kind == "merge":  # the joining edges must stay behind: turn at most the order of the rest
        e = sorted(e)
    else:
        e = list(e)
        if rng.random() < .6:
            rng.shuffle(perm)
        if rng.random() < .7:
            rng.shuffle(e)
        else:
            e.sort()
    return adj_of(n, [(perm[f], perm[t]) for f, t in e])


def bigs(ctx, what, quick, thorough, **kw):
    return [dict(k="graph", what=what, adj=big_graph(ctx.rng, n=ctx.rng.choice([66000, 70000]) if i == 0 else None), big=1, **kw)
            for i in range(ctx.pick(quick, thorough))]


def small(ctx, verts, edges):
    return ctx.gen("GenGraph", "GenGraph", env={"VERTS": str(verts), "EDGES": str(edges)}, workers=4)


def smalls(ctx):
    """Exhaustive small multigraphs."""
    if ctx.thorough:
        return small(ctx, 3, 6) + small(ctx, 4, 5)
    return small(ctx, 3, 4)


def G(what, adj, **kw):
    return dict(k="graph", what=what, adj=adj, **kw)


def simple(what, rnd=(1500, 15000), maxn=14):
    def f(ctx):
        cases = giants(ctx, what, SHAPES.get(what, ALL))
        if what == "disjoint":  # more than 65536 components
            cases.append(dict(k="graph", what=what, shape="pairs", n=140000))
            for _ in range(ctx.pick(160, 1600)):
                a = links(ctx.rng)
                cases.append(G(what, a, **({"big": 1} if len(a) > 60 else {})))
        cases += bigs(ctx, what, 40, 300)
        cases += [G(what, a) for a in smalls(ctx)]
        cases += [G(what, long_graph(ctx.rng)) for _ in range(ctx.pick(48, 400))]
        cases += [G(what, fan_graph(ctx.rng)) for _ in range(ctx.pick(160, 1600))]
        cases += [G(what, random_graph(ctx.rng, maxn)) for _ in range(ctx.pick(*rnd))]
        cases += [G(what, random_graph(ctx.rng, 40)) for _ in range(ctx.pick(40, 800))]
        cases += [G(what, random_graph(ctx.rng, n=ctx.rng.choice(BIG))) for _ in range(ctx.pick(60, 1000))]
        return cases
    return f


def c08(ctx):
    rng = ctx.rng
    cases = [G("raw", a) for a in (small(ctx, 3, 3) if not ctx.thorough else small(ctx, 3, 5) + small(ctx, 4, 4))]
    for i, h in enumerate(ctx.gen("GenBuild", "GenBuild", env={"DEPTH": "5"}, simulate=ctx.pick(500, 5000), depth=6)):
        cases.append({"k": "graph", "what": "build", "all": 0, "ops": h})
    for i in range(ctx.pick(600, 6000)):
        top = rng.choice([0, 1, 2, 4, 8, 20, 20, 140] + [300, 600] * (i % 4 == 0)) if i > 3 else rng.choice([65536, 66000, 70000])
        ops = []
        for _ in range(rng.randint(0, 12)):
            how = rng.choice(["edge", "edge", "path", "chain"])
            v = [rng.randint(0, top) for _ in range(2 if how == "edge" else rng.choice([0, 1, 2, 3, 5]))]
            ops.append({"how": how, "v": v})
        if rng.random() < 0.3:
            ops.append({"how": "edge", "v": [rng.randint(0, top), top + rng.randint(1, 30)]})
        if rng.random() < 0.15:  # a long walk, perhaps over all vertices up to a limit
            n = rng.choice(BIG)
            w = list(range(n)) if rng.random() < 0.7 else [rng.randrange(n) for _ in range(n)]
            if rng.random() < 0.4:
                w = w[::-1]
            elif rng.random() < 0.3:
                rng.shuffle(w)
            ops.append({"how": rng.choice(["path", "chain"]), "v": w})
        rng.shuffle(ops)
        cases.append({"k": "graph", "what": "build", "all": int(rng.random() < 0.3), "ops": ops})
    cases += bigs(ctx, "raw", 10, 100)
    # more edges than 16 bits can count
    cases += [G("raw", big_graph(rng, n=n, kind=k), big=1) for n, k in ((75000, "forest"), (66000, "sparse"), (66000, "ladder"))]
    for shape, how in (("path", "path"), ("path", "chain"), ("down", "path"), ("down", "chain"), ("star", "edge"), ("tree", "edge"), ("instar", "edge"), ("wheel", "edge")):
        cases.append({"k": "graph", "what": "build", "shape": shape, "how": how, "n": rng.choice([65536, 65537, 65538, 70000]), "all": rng.randint(0, 1)})
    cases += [G("raw", fan_graph(rng)) for _ in range(ctx.pick(40, 400))]
    for i in range(ctx.pick(300, 3000)):
        a = random_graph(rng, n=rng.choice(BIG) if i % 6 == 0 else None)
        if rng.random() < 0.4 and any(a):  # an edge that leaves the graph
            v = rng.choice([v for v, l in enumerate(a) if l])
            a[v][rng.randrange(len(a[v]))] = len(a) + rng.choice([0, 0, 1, 5])
        cases.append(G("raw", a))
    return cases


def c10(ctx):
    rng, cases = ctx.rng, giants(ctx, "ends", ["path", "pairs", "instar"]) + [G("ends", a) for a in smalls(ctx)]
    cases += bigs(ctx, "ends", 20, 200)
    cases += [G("ends", fan_graph(rng)) for _ in range(ctx.pick(60, 600))]
    cases += [G("ends", random_graph(rng)) for _ in range(ctx.pick(300, 3000))]
    cases += [G("ends", random_graph(rng, n=rng.choice(BIG))) for _ in range(ctx.pick(60, 800))]
    for i, p in enumerate(ctx.gen("GenPairs", "GenPairs", env={"KEYS": "3", "LEN": "4"})):
        cases.append({"k": "graph", "what": "degree", "e": [[v, 1] for v in p], "nv": 3, "base": [0, 65535, 65534]})
    for i in range(ctx.pick(500, 5000)):
        nv = rng.choice([0, 1, 2, 3, 8, 8, 33, 65, 130] + [65537, 70000] * (i < 20))
        e = []
        for _ in range(rng.randint(0, 10)):
            v = rng.randrange(nv) if nv and rng.random() < 0.97 else nv + rng.randint(0, 1)
            e.append([v, rng.choice([1, 1, 1, 2, 3, 255, 256, 257]) if i % 10 else rng.choice([1, 65534, 65535, 65536, 70000])])
        nb = max(0, nv + rng.choice([0, 0, 0, 0, 1, -1]))
        base = [rng.choice([0, 0, 1, 255, 256, 65533, 65534, 65535]) for _ in range(nb)]
        cases.append({"k": "graph", "what": "degree", "e": e, "nv": nv, "base": base})
    return cases


def c11(ctx):
    rng, cases = ctx.rng, giants(ctx, "dfs", ["path", "cycle", "star", "tree", "comb", "comb2"], start=0, take=150000)
    for c in giants(ctx, "dfs", ["path", "wheel", "down", "instar", "tree"], take=150000):
        cases.append(dict(c, start=rng.choice([c["n"] // 2, 65535, 65536, c["n"] - 1 - rng.randrange(300)]) % c["n"]))
    for c in bigs(ctx, "dfs", 60, 500):
        some = [v for v, l in enumerate(c["adj"]) if l and (v > 255 or rng.random() < .1)] or [0]
        cases.append(dict(c, start=rng.choice(some), take=rng.choice([300, 1000, 5000, 20000])))
    for _ in range(ctx.pick(80, 800)):
        a = fan_graph(rng)
        cases.append(G("dfs", a, start=max(range(len(a)), key=lambda v: len(a[v])) if rng.random() < .6 else rng.randrange(len(a)), take=rng.choice([20, 80, 300])))
    for a in (small(ctx, 3, 3) if not ctx.thorough else small(ctx, 3, 5) + small(ctx, 4, 4)):
        for s in range(len(a)):
            cases.append(G("dfs", a, start=s, take=20))
    for i in range(ctx.pick(800, 8000)):
        a = random_graph(rng, dag=i % 2, n=rng.choice(BIG) if i % 12 == 0 else None)
        s = rng.randrange(len(a))
        best = max(range(len(a)), key=lambda v: len(a[v]))
        cases.append(G("dfs", a, start=best if rng.random() < 0.4 else s, take=rng.choice([0, 1, 5, 40, 150])))
    return cases


def layering(rng, a):
    """A valid layering of an acyclic graph, minimal or stretched; None if cyclic."""
    n = len(a)
    back, left, lay = [[] for _ in a], [len(l) for l in a], [0] * n
    for v, l in enumerate(a):
        for t in l:
            back[t].append(v)
    todo = [v for v in range(n) if not left[v]]
    for t in todo:
        for v in back[t]:
            lay[v] = max(lay[v], lay[t] + 1)
            left[v] -= 1
            if not left[v]:
                todo.append(v)
    return lay if len(todo) == n else None


def stretch(rng, a, lay):
    gaps = [0]
    for _ in range(max(lay, default=0)):
        gaps.append(gaps[-1] + rng.choice([1, 1, 1, 2, 3]))
    lay = [gaps[x] for x in lay]
    if rng.random() < 0.5:
        for v in range(len(a)):  # lift a source
            if not any(v in l for l in a) and rng.random() < 0.5:
                lay[v] += rng.randint(0, 3)
    return lay


def c14(ctx):
    rng, cases = ctx.rng, giants(ctx, "proper", ["path", "down", "pairs"])
    for _ in range(ctx.pick(16, 160)):  # edges over very many layers
        top = rng.choice([100, 254, 255, 256, 257, 300])
        lay = [0, top] + [rng.choice([0, 1, top - 1, rng.randint(0, top)]) for _ in range(rng.randint(0, 4))]
        rng.shuffle(lay)
        e = [(lay.index(top), lay.index(0))]
        for _ in range(rng.randint(0, 3)):
            f, t = sorted(rng.sample(range(len(lay)), 2), key=lambda v: -lay[v])
            if lay[f] > lay[t]:
                e.append((f, t))
        cases.append(G("proper", adj_of(len(lay), e), layer=lay))
    for top in (65534, 65535, 65536, 65537, 65538, 70000):  # more than 16 bits can count
        lay = [0, top, rng.randint(1, 9), top - rng.randint(1, 9), rng.randint(0, top)]
        rng.shuffle(lay)
        a, b = lay.index(top), lay.index(0)
        e = sorted({tuple(sorted(rng.sample(range(5), 2), key=lambda v: -lay[v])) for _ in range(3)} | {(a, b)})
        e = [x for x in e if x == (a, b) or 0 < lay[x[0]] - lay[x[1]] < 100] + [(a, a if rng.random() < .02 else b)] * (rng.random() < .3)
        cases.append(G("proper", adj_of(5, e), layer=lay, big=1))
    for base in (254, 255, 65533, 65535, 65536, 1000000, 16777216, 2000000000):  # high layers
        a = random_graph(rng, dag=True)
        lay = layering(rng, a)
        cases.append(G("proper", a, layer=[base + x for x in lay]))
    def one(a, **kw):
        lay = layering(rng, a)
        if lay is None:
            lay = [rng.randint(0, 3) for _ in a]
        else:
            r = rng.random()
            if r < 0.5:
                lay = stretch(rng, a, lay)
            elif r < 0.6 and a:
                lay = [max(0, x + rng.choice([0, 0, 1, -1])) for x in lay]
        cases.append(G("proper", a, layer=lay, **kw))
    a = big_graph(rng, 600, dag=True)  # more than 65536 virtual vertices
    top, lay = 0, layering(rng, a)
    while sum(lay[v] - lay[t] - 1 for v, l in enumerate(a) for t in l) < 66000:
        m = max(lay) // 2
        lay = [x + (1 + len(a) // 20 if x > m else 0) for x in lay]
    cases.append(G("proper", a, layer=lay, big=1))
    for _ in range(ctx.pick(30, 300)):
        a = big_graph(rng, dag=True)
        lay = layering(rng, a)
        more = stretch(rng, a, lay)
        for l in (more, lay):
            if sum(l[v] - l[t] - 1 for v, ts in enumerate(a) for t in ts) < 30000:
                cases.append(G("proper", a, layer=l, big=1))
                break
    for a in smalls(ctx):
        one(a)
    for _ in range(ctx.pick(80, 800)):
        one(fan_graph(rng, dag=rng.random() < .9), big=1)
    for i in range(ctx.pick(1200, 12000)):
        one(random_graph(rng, dag=rng.random() < 0.9))
    for i in range(ctx.pick(30, 500)):
        one(random_graph(rng, dag=True, n=rng.choice(BIG[:8])))
    return cases


def checks(Check):
    tr = {"module": "TraceGraph", "cfg": "TraceGraph"}
    m = lambda *names: [{"module": n.split("/")[0], "cfg": n.split("/")[-1].rstrip("!"),
                         "expect": "violated" if n.endswith("!") else "ok"} for n in names]
    deep = lambda mod, *cfgs: [{"module": mod, "cfg": c, "tiers": ("thorough",), "workers": 8, "timeout": 3000} for c in cfgs]

    def muts(mod, cfg, names, *more):
        """Known-bad designs, which the model has to reject; those after the first few only in thorough runs."""
        return [{"module": mod, "cfg": cfg, "expect": "violated", "env": {"MUT": x}, "tiers": ("quick", "thorough") if x in names else ("thorough",)}
                for x in list(names) + list(more)]
    big = m("GraphDefs/MCGraphBig") + deep("GraphDefs", "MCGraphBigDeep")
    defs = m("GraphDefs/MCGraphDefs") + deep("GraphDefs", "MCGraphDefsDeep")
    topo = m("TopoImpl/MCTopo") + deep("TopoImpl", "MCTopoDeep")
    return [
        Check("C08", tr, c08, defs + big + m("BuildImpl/MCBuild") + deep("BuildImpl", "MCBuildDeep")
              + muts("BuildImpl", "MCBuild", ["gap"], "tail", "order", "set", "unsorted")),
        Check("C09", tr, simple("transpose"), m("TransposeImpl/MCTranspose") + big + deep("TransposeImpl", "MCTransposeDeep")
              + muts("TransposeImpl", "MCTranspose", ["origin"], "sumshort", "backwards", "loop")),
        Check("C10", tr, c10, m("DegreeImpl/MCDegree") + deep("DegreeImpl", "MCDegreeDeep")
              + muts("DegreeImpl", "MCDegree", ["wrap"], "stop", "last", "early", "fresh")),
        Check("C11", tr, c11, m("TraverseImpl/MCTraverse") + defs + deep("TraverseImpl", "MCTraverseDeep")
              + muts("TraverseImpl", "MCTraverse", ["visited"], "tail", "restart", "leaf")),
        Check("C12", tr, simple("topo"), topo + m("TopoImpl/MCTopoMut!") + big),
        Check("C13", tr, simple("layers"), topo + defs),
        Check("C14", tr, c14, m("ProperImpl/MCProper") + deep("ProperImpl", "MCProperDeep")
              + muts("ProperImpl", "MCProper", ["fan"], "cap", "parallel", "reuse")),
        Check("C15", tr, simple("disjoint"), m("DisjointImpl/MCDisjoint", "DisjointImpl/MCDisjointMut!") + big
              + deep("DisjointImpl", "MCDisjointDeep")),
        Check("C16", tr, simple("chains"), m("ChainImpl/MCChain") + big + deep("ChainImpl", "MCChainDeep")
              + muts("ChainImpl", "MCChain", ["round"], "low", "loop", "first")),
    ]
