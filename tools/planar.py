"""Cases for the planar functions (C19-C22, C25)."""

import math


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def sgn(x):
    return (x > 0) - (x < 0)


def on_seg(a, b, c):  # closed
    return cross(a, b, c) == 0 and min(a[0], b[0]) <= c[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= c[1] <= max(a[1], b[1])


def touch(a, b, c, d):
    """The closed segments a-b and c-d have a common point."""
    if sgn(cross(a, b, c)) * sgn(cross(a, b, d)) < 0 and sgn(cross(c, d, a)) * sgn(cross(c, d, b)) < 0:
        return True
    return on_seg(a, b, c) or on_seg(a, b, d) or on_seg(c, d, a) or on_seg(c, d, b)


def edges(p):
    return [(p[i], p[(i + 1) % len(p)]) for i in range(len(p))]


def area2(p):
    return sum(a[0] * b[1] - a[1] * b[0] for a, b in edges(p))


def simple(p):
    n = len(p)
    if len(set(p)) < n or n < 3 or area2(p) == 0:
        return False
    e = edges(p)
    for i in range(n):
        for j in range(i + 1, n):
            if j == i + 1 or (i == 0 and j == n - 1):
                a, b = (e[i], e[j]) if j == i + 1 else (e[j], e[i])
                if on_seg(b[0], b[1], a[0]) or on_seg(a[0], a[1], b[1]):
                    return False
            elif touch(*e[i], *e[j]):
                return False
    return True


def where(p, q):
    """1 inside, 0 boundary, -1 outside."""
    if len(p) == 1:
        return 0 if q == p[0] else -1
    if any(on_seg(a, b, q) for a, b in edges(p)):
        return 0
    r = False
    for a, b in edges(p):
        if (a[1] > q[1]) != (b[1] > q[1]):
            t = cross(a, b, q)
            if (t > 0) == (b[1] > a[1]):
                r = not r
    return 1 if r else -1


def hull(pts):
    pts = sorted(set(pts))
    def half(ps):
        h = []
        for p in ps:
            while len(h) > 1 and cross(h[-2], h[-1], p) <= 0:
                h.pop()
            h.append(p)
        return h[:-1]
    return half(pts) + half(pts[::-1])


def poly(rng, lo, hi, kind=None):
    """A random simple polygon in the box, clockwise, or a point or segment."""
    kind = kind or rng.choice(["hull", "hull", "box", "star", "star", "comb", "seg", "pt", "extra"])
    P = lambda: (rng.randint(lo[0], hi[0]), rng.randint(lo[1], hi[1]))
    for _ in range(60):
        if kind == "pt":
            return [P()]
        if kind == "seg":
            p = [P(), P()]
            if p[0] != p[1]:
                return p
            continue
        if kind == "hull":
            p = hull([P() for _ in range(rng.randint(3, 6))])
        elif kind == "box":
            (a, b), (c, d) = P(), P()
            p = [(a, b), (c, b), (c, d), (a, d)]
        elif kind == "star":
            import math
            q = list({P() for _ in range(rng.randint(4, 7))})
            cx, cy = sum(x for x, _ in q) / len(q), sum(y for _, y in q) / len(q)
            p = sorted(q, key=lambda t: math.atan2(t[1] - cy, t[0] - cx))
        elif kind == "extra":  # a polygon with straight angles
            h = hull([P() for _ in range(rng.randint(3, 4))])
            p = []
            for a, b in edges(h) if len(h) > 2 else []:
                p.append(a)
                m = ((a[0] + b[0]) // 2, (a[1] + b[1]) // 2)
                if m not in (a, b) and cross(a, b, m) == 0:
                    p.append(m)
        else:  # a comb or L shape
            x0, y0 = P()
            w, h = rng.randint(2, 5), rng.randint(2, 5)
            k = rng.randint(1, w - 1)
            j = rng.randint(1, h - 1)
            p = [(x0, y0), (x0 + w, y0), (x0 + w, y0 + h), (x0 + k, y0 + h), (x0 + k, y0 + j), (x0, y0 + j)]
            if max(x for x, _ in p) > hi[0] or max(y for _, y in p) > hi[1]:
                continue
            if rng.random() < 0.5:
                p = [(lo[0] + hi[0] - x, y) for x, y in p]
        if len(p) >= 3 and simple(p):
            if area2(p) > 0:
                p = p[::-1]
            r = rng.randrange(len(p))
            return p[r:] + p[:r]
    return [P()]


def apart(p, q):
    for a, b in edges(p):
        for c, d in edges(q):
            if touch(a, b, c, d):
                return False
    return not ((len(q) > 2 and where(q, p[0]) >= 0) or (len(p) > 2 and where(p, q[0]) >= 0))


def obstacles(rng, top=30, maxn=12, kinds=None, count=None):
    ps = []
    size = min(top, rng.choice([2, 4, 6, 10, 16]))
    for _ in range(count or rng.choice([1, 1, 2, 2, 3, 4, 6])):
        for _ in range(15):
            x, y = rng.randint(0, top - size), rng.randint(0, top - size)
            p = poly(rng, (x, y), (x + size, y + size), kinds and rng.choice(kinds))
            if kinds and len(p) < 3:
                continue
            if sum(map(len, ps)) + len(p) <= maxn and all(apart(p, q) for q in ps):
                ps.append(p)
                break
    return ps


def grid(rng, cells, size, count, kinds=None):
    """Many small obstacles, one to a cell."""
    at = [(x, y) for x in range(cells) for y in range(cells)]
    rng.shuffle(at)
    ps = []
    for x, y in at[:count]:
        x, y = x * (size + 1), y * (size + 1)
        p = poly(rng, (x, y), (x + size, y + size), rng.choice(kinds or ["hull", "hull", "box", "seg", "star", "pt"]))
        if not kinds or len(p) > 2:
            ps.append(p)
    return ps


def spot(rng, ps, top=30):
    """A point in an interesting place."""
    if not ps:
        return (rng.randint(0, top), rng.randint(0, top))
    p = rng.choice(ps)
    r = rng.random()
    i = rng.randrange(len(p))
    a, b = p[i], p[(i + 1) % len(p)]
    if r < 0.3:
        return (rng.randint(0, top), rng.randint(0, top))
    if r < 0.5:  # around a vertex
        return (min(top, max(0, a[0] + rng.randint(-3, 3))), min(top, max(0, a[1] + rng.randint(-3, 3))))
    if r < 0.6:  # on the line of an edge
        k = rng.choice([-1, 2])
        q = (a[0] + k * (b[0] - a[0]), a[1] + k * (b[1] - a[1]))
        if 0 <= q[0] <= top and 0 <= q[1] <= top:
            return q
        return a
    if r < 0.7:  # on an edge or a vertex
        m = ((a[0] + b[0]) // 2, (a[1] + b[1]) // 2)
        return m if rng.random() < 0.7 else a
    x, y = zip(*p)
    return (rng.randint(min(x), max(x)), rng.randint(min(y), max(y)))


SC = [[1, 1]] * 6 + [[1, 2], [1, 4], [1, 16], [1, 64], [2, 1], [8, 1], [64, 1], [1024, 1], [65536, 1]]


def moved(rng, c):
    """The same case turned by quarters and moved: also to negative and to large coordinates."""
    r = rng.random()
    if r < .35:
        return c
    k, t = rng.randint(0, 3), rng.choice([10, 30, 30, 60, 60, 1000, 20000])
    dx, dy = rng.randint(-t, t), rng.randint(-t, t)

    def m(p):
        x, y = p
        for _ in range(k):
            x, y = y, -x
        return [x + dx, y + dy]
    return mapped(c, m)


def mapped(c, m):
    for f in ("p", "q", "a", "b"):
        if f in c and isinstance(c[f][0], int):
            c[f] = m(c[f])
    if "poly" in c:
        c["poly"] = [m(p) for p in c["poly"]]
    if "polys" in c:
        c["polys"] = [[m(p) for p in o] for o in c["polys"]]
    if c["k"] == "points":
        for ask in c["q"]:
            for f in ("p", "q"):
                if f in ask:
                    ask[f] = m(ask[f])
    return c


def sheared(rng, c):
    """The same case after a linear mapping of determinant one: what is seen, hit, inside and taut stays the same,
    but the turns are slight, and the coordinates large."""
    if c["k"] == "points" and any(a["ask"] == "route" for a in c["q"]):
        return c  # the lengths of paths are exact to a thousandth: not for long ones
    all_ = []
    mapped(c, lambda p: (all_.append(p), p)[1])
    ext = max([1] + [max(q[i] for q in all_) - min(q[i] for q in all_) for i in (0, 1)])
    most = 8000 // ext
    if most < 2:
        return c
    a, b = rng.randint(1 + most // 2, most), rng.choice([-1, 1]) * rng.randint(0, most)
    g = math.gcd(a, b)
    a, b = a // g, b // g
    e = pow(a, -1, abs(b)) if abs(b) > 1 else 1   # a * e - b * d = 1
    d = (a * e - 1) // b if b else 0
    if b == 0:
        a, e, d = 1, 1, rng.randint(-most, most)
    return mapped(c, lambda p: [a * p[0] + b * p[1], d * p[0] + e * p[1]])


def scaled(rng, c):
    c["sc"] = rng.choice(SC)
    if rng.random() < .3:
        c = sheared(rng, c)
    return moved(rng, c)


def arms(rng):
    """An obstacle with two arms, others between them, and a point in or at each arm."""
    w, d, t = rng.randint(4, 12), rng.randint(3, 10), rng.randint(1, 3)
    u = [(0, 0), (0, t + d + rng.randint(-1, 1)), (t, t + d), (t, t), (t + w, t), (t + w, t + d), (2 * t + w, t + d + rng.randint(-1, 1)), (2 * t + w, 0)]
    ps, k = [u], 0
    for _ in range(rng.randint(1, 3)):
        p = poly(rng, (t + 1, t + 1), (t + w - 1, t + d - rng.choice([0, 0, -3])), rng.choice(["hull", "box", "star", "seg", "pt"]))
        if all(apart(p, q) for q in ps) and sum(map(len, ps)) + len(p) <= 16:
            ps.append(p)
    a = (rng.randint(0, t), rng.randint(0, t + d))
    b = (t + w + rng.randint(0, t), rng.randint(0, t + d))
    if rng.random() < .5:
        a, b = b, a
    if rng.random() < .5:
        k = rng.randrange(len(ps))
        ps[0], ps[k] = ps[k], ps[0]
    return ps, k, a, b


def c19(ctx):
    rng = ctx.rng
    cases = [{"k": "vis", "polys": []}]
    for c in ctx.gen("GenObstacles", "GenObstacles", env={"K": "2"}, workers=4, limit=ctx.pick(1500, 5000)):
        cases.append({"k": "vis", "polys": c})
    for i in range(ctx.pick(900, 9000)):
        cases.append(scaled(rng, {"k": "vis", "polys": obstacles(rng, maxn=rng.choice([6, 10, 12, 14]))}))
    for i in range(ctx.pick(8, 80)):  # very many vertices
        ps = grid(rng, 10, 2, 100, ["hull", "box", "star"])
        n, k = sum(map(len, ps)), len(ps)
        own = [j for j, p in enumerate(ps) for _ in p]
        some = [[rng.randrange(n), rng.randrange(n)] for _ in range(40)] + [[n - 1, n - 2], [n - 1, 0], [min(n - 1, 256), 255], [256, 0]]
        while len(some) < 90:  # not too far from each other
            a, b = rng.randrange(n), rng.randrange(n)
            p, q = ps[own[a]][0], ps[own[b]][0]
            if abs(p[0] - q[0]) + abs(p[1] - q[1]) < 8:
                some.append([a, b])
        cases.append(scaled(rng, {"k": "vis", "polys": ps, "some": some}))
    for i in range(ctx.pick(300, 3000)):  # crowded: many collinear and nearly touching places
        cases.append(scaled(rng, {"k": "vis", "polys": obstacles(rng, top=rng.choice([4, 6, 8]) + 10, maxn=14, count=6)}))
    return cases


def c20(ctx):
    rng, cases = ctx.rng, []
    for i in range(ctx.pick(2500, 25000)):
        convex = i % 2 == 0
        ps = obstacles(rng, maxn=14, kinds=["hull", "hull", "box", "extra"] if convex else None)
        qs = []
        for _ in range(rng.randint(2, 6)):
            p, q = spot(rng, ps), spot(rng, ps)
            inside = [k for k, o in enumerate(ps) if len(o) > 2 and where(o, p) >= 0]
            def pid(q0):
                ins = [k for k, o in enumerate(ps) if len(o) > 2 and where(o, q0) >= 0]
                return ins[0] if ins and rng.random() < 0.7 else rng.randrange(len(ps)) if ps and rng.random() < 0.3 else -1
            r = rng.random()
            if convex and r < 0.3:
                qs.append({"ask": "hit", "p": p})
            elif r < 0.65:
                pp = pid(p)
                if convex and rng.random() < 0.5:
                    pp = -2
                qs.append({"ask": "ptvis", "p": p, "pp": pp})
            else:
                qs.append({"ask": "direct", "p": p, "pp": pid(p), "q": q, "qp": pid(q)})
        cases.append(scaled(rng, {"k": "points", "polys": ps, "q": qs}))
    for _ in range(ctx.pick(150, 1500)):
        ps, k, a, b = arms(rng)
        own = lambda: k if rng.random() < .7 else rng.choice([-1, rng.randrange(len(ps))])
        qs = [{"ask": "direct", "p": a, "pp": own(), "q": b, "qp": own()}, {"ask": "ptvis", "p": a, "pp": own()}, {"ask": "ptvis", "p": b, "pp": own()}]
        cases.append(scaled(rng, {"k": "points", "polys": ps, "q": qs}))
    for i in range(ctx.pick(8, 80)):  # very many obstacles or vertices
        ps = grid(rng, 18, 2, 300, ["hull", "box"]) if i % 2 else grid(rng, 10, 2, 100, ["hull", "box"])
        last = ps[-1]
        qs = [{"ask": "hit", "p": spot(rng, rng.choice([ps, ps[-3:], ps[254:258] or ps]), 54)} for _ in range(10)]
        if i % 2 == 0:
            p = spot(rng, ps)
            ins = [k for k, o in enumerate(ps) if where(o, p) >= 0]
            qs = qs[:3] + [{"ask": "ptvis", "p": p, "pp": -2}, {"ask": "direct", "p": p, "pp": ins[0] if ins else -1, "q": spot(rng, ps), "qp": -1}]
            for _ in range(24):  # from the later obstacles
                far = rng.choice([6, 10, 16])
                k = rng.randrange(len(ps) // 2, len(ps))
                near = [j for j in range(len(ps)) if abs(ps[j][0][0] - ps[k][0][0]) + abs(ps[j][0][1] - ps[k][0][1]) < far]
                j = rng.choice(near)
                ask = {"ask": "direct", "p": rng.choice(ps[k]), "pp": k, "q": rng.choice(ps[j]), "qp": j}
                if rng.random() < .5:
                    ask = {"ask": "direct", "p": ask["q"], "pp": j, "q": ask["p"], "qp": k}
                qs.append(ask)
            k = rng.randrange(len(ps) // 2, len(ps))
            qs.append({"ask": "ptvis", "p": rng.choice(ps[k]), "pp": k})
        cases.append(scaled(rng, {"k": "points", "polys": ps, "q": qs}))
    for i in range(ctx.pick(600, 6000)):  # location among convex obstacles that may touch or overlap
        ps = []
        top = rng.choice([3, 6, 12, 30])
        while len(ps) < rng.randint(2, 7):
            if ps and rng.random() < .4:  # a copy beside, above or over another one
                o = rng.choice(ps)
                w = rng.choice([(max(x for x, _ in o) - min(x for x, _ in o), 0), (0, max(y for _, y in o) - min(y for _, y in o)), (1, 1), (0, 0)])
                ps.append([(x + w[0], y + w[1]) for x, y in o])
            else:
                p = poly(rng, (0, 0), (top, top), rng.choice(["hull", "box", "extra"]))
                if len(p) >= 3:
                    ps.append(p)
        cases.append(scaled(rng, {"k": "points", "polys": ps, "q": [{"ask": "hit", "p": spot(rng, ps, top)} for _ in range(8)]}))
    return cases


def c21(ctx):
    rng, cases = ctx.rng, []
    for i in range(ctx.pick(2400, 20000)):
        ps = obstacles(rng, maxn=12, count=rng.choice([1, 2, 3, 4, 5])) if i % 20 else grid(rng, 5, rng.choice([2, 3, 5]), rng.choice([8, 12]))
        qs = []
        for _ in range(3):
            p, q = spot(rng, ps), spot(rng, ps)
            pid = lambda x: next((k for k, o in enumerate(ps) if len(o) > 2 and where(o, x) >= 0 and rng.random() < 0.8), -1)
            qs.append({"ask": "route", "p": p, "pp": pid(p), "q": q, "qp": pid(q)})
        cases.append(scaled(rng, {"k": "points", "polys": ps, "q": qs}))
    for _ in range(ctx.pick(200, 2000)):
        ps, k, a, b = arms(rng)
        own = lambda: k if rng.random() < .7 else -1
        cases.append(scaled(rng, {"k": "points", "polys": ps, "q": [{"ask": "route", "p": a, "pp": own(), "q": b, "qp": own()} for _ in range(2)]}))
    return cases


def untangled(rng, n, top):
    """A random simple polygon: points joined at random, crossings undone."""
    q = list({(rng.randint(0, top), rng.randint(0, top)) for _ in range(n)})
    for _ in range(300):
        done = True
        for i in range(len(q)):
            for j in range(i + 2, len(q)):
                if (i or j < len(q) - 1) and touch(q[i], q[i + 1], q[j], q[(j + 1) % len(q)]):
                    q[i + 1:j + 1] = q[i + 1:j + 1][::-1]
                    done = False
        if done:
            return q
    return q


def corridor(rng, pts, w):
    left, right = [], []
    for i, (x, y) in enumerate(pts):
        dx = pts[min(i + 1, len(pts) - 1)][0] - pts[max(i - 1, 0)][0]
        dy = pts[min(i + 1, len(pts) - 1)][1] - pts[max(i - 1, 0)][1]
        n = (dx * dx + dy * dy) ** 0.5 or 1
        a, b = rng.uniform(.7, 1.3) * w, rng.uniform(.7, 1.3) * w
        left.append((round(x - dy / n * a), round(y + dx / n * a)))
        right.append((round(x + dy / n * b), round(y - dx / n * b)))
    return left + right[::-1]


def winding(rng):
    """A simple polygon in which shortest paths bend, and its size."""
    import math
    while True:
        top = rng.choice([4, 8, 20, 40, 60])
        r = rng.random()
        if r < 0.4:
            q = untangled(rng, rng.choice([4, 5, 6, 7, 8, 9, 10, 12, 14]), top)
        elif r < 0.6:
            n, c, t = rng.randint(4, 8), top / 2, rng.uniform(0.5, 1.7)
            o = rng.uniform(0, 6)
            q = corridor(rng, [(c + .85 * c * (1 - .75 * i / n) * math.cos(o + t * 6.28 * i / n),
                                c + .85 * c * (1 - .75 * i / n) * math.sin(o + t * 6.28 * i / n)) for i in range(n)], rng.uniform(.05, .15) * top)
        elif r < 0.8:
            n, c = rng.randint(3, 7), top / 2
            a = rng.uniform(.3, .8)
            q = corridor(rng, [((i + .5) * top / n, c + a * c * (-1) ** i) for i in range(n)], rng.uniform(.05, .2) * top)
        else:
            q = poly(rng, (0, 0), (top, top), rng.choice(["star", "hull", "box", "comb", "extra"]))
        if len(q) < 3 or not simple(q) or min(min(v) for v in q) < 0 or max(max(v) for v in q) > 70:
            continue
        if rng.random() < 0.5:
            q = q[::-1]
        r = rng.randrange(len(q))
        return q[r:] + q[:r], top


def long_polygon(rng):
    """A simple polygon of some hundreds of vertices."""
    import math
    while True:
        top, n = rng.choice([300, 1000, 3000]), rng.choice([40, 64, 100, 128, 130, 150])
        c = top / 2
        r = rng.random()
        if r < .3:  # a comb
            w = rng.choice([2, 3, 5])
            h = [rng.randint(5, top) for _ in range(n)]
            base = rng.randint(1, 4)
            q = []
            for k, y in enumerate(h):
                q += [(k * w, base if k % 2 else y + base), ((k + 1) * w, base if k % 2 else y + base)]
            q = [v for i, v in enumerate(q) if i == 0 or v != q[i - 1]] + [(n * w, 0), (0, 0)]
        elif r < .65:
            t = rng.uniform(1, 4)
            o = rng.uniform(0, 6)
            wave = rng.uniform(0, .06)
            q = corridor(rng, [(c + (.95 - .8 * i / n + wave * (i % 2)) * c * math.cos(o + t * 6.28 * i / n),
                                c + (.95 - .8 * i / n + wave * (i % 2)) * c * math.sin(o + t * 6.28 * i / n)) for i in range(n)], rng.uniform(.01, .04) * top)
        else:
            n = rng.choice([20, 40, 64, 128])
            q = corridor(rng, [((i + .5) * top / n, c + rng.uniform(.1, .9) * c * (-1) ** i) for i in range(n)], rng.uniform(.05, .3) * top / n)
        if min(min(v) for v in q) >= 0 and simple(q):
            if rng.random() < .5:
                q = q[::-1]
            k = rng.randrange(len(q))
            return q[k:] + q[:k], top


def inner_point(rng, q, top):
    while True:
        if rng.random() < .1:
            return rng.choice(q)
        v, w = rng.choice(q), rng.choice(q)
        x = (v[0] + rng.randint(-5, 5), v[1] + rng.randint(-5, 5)) if rng.random() < .5 else ((v[0] + w[0]) // 2, (v[1] + w[1]) // 2)
        if where(q, x) >= 0:
            return x


def c22(ctx):
    rng, cases = ctx.rng, []
    for _ in range(ctx.pick(40, 400)):
        q, top = long_polygon(rng)
        for _ in range(3):
            cases.append(moved(rng, {"k": "inner", "poly": q, "a": inner_point(rng, q, top), "b": inner_point(rng, q, top), "sc": rng.choice([[1, 1], [1, 16], [16, 1]])}))
    want = ctx.pick(5000, 60000)
    while len(cases) < want:
        q, top = winding(rng)
        for _ in range(4):
            a, b = [(rng.randint(0, top), rng.randint(0, top)) for _ in range(2)]
            for _ in range(30):
                if where(q, a) == 1 or rng.random() < 0.03:
                    break
                if rng.random() < 0.05:
                    a = rng.choice(q)
                    break
                a = (rng.randint(0, top), rng.randint(0, top))
            for _ in range(30):
                if where(q, b) == 1 or rng.random() < 0.03:
                    break
                b = (rng.randint(0, top), rng.randint(0, top))
            d = [v for v in q for _ in range(rng.choice([1, 1, 1, 2]))] if rng.random() < 0.05 else q
            cases.append(scaled(rng, {"k": "inner", "poly": d, "a": a, "b": b}))
    return cases


def c25(ctx):
    rng, cases = ctx.rng, []
    def add(f, a, den=1, u=0):
        cases.append({"k": "planar", "f": f, "a": a, "den": den, "u": u})
    def box(t):
        (a, c), (b, d) = sorted(rng.randint(-t, t) for _ in range(2)), sorted(rng.randint(-t, t) for _ in range(2))
        return [a, b, c, d]
    for i in range(ctx.pick(250, 2500)):
        t = rng.choice([1, 2, 3, 10, 100, 10000])
        den = rng.choice([1, 2, 4, 8])
        r = lambda k: [rng.randint(-t, t) for _ in range(k)]
        add("area2", r(6))
        add("wind", r(6))
        t2 = min(t, 1000)
        r2 = lambda: [rng.randint(-t2, t2) for _ in range(2)]
        a, d, k = r2(), r2(), rng.sample(range(-3, 4), 3)
        add("wind", [x for m in k for x in (a[0] + m * d[0], a[1] + m * d[1])])
        # almost in a line, far apart: the second area is the least there is
        vx, vy = [rng.choice([-1, 1]) * rng.randint(1, rng.choice([100, 10000])) for _ in range(2)]
        g = math.gcd(vx, vy)
        vx, vy = vx // g, vy // g
        wx = pow(-vy, -1, abs(vx)) if abs(vx) > 1 else 0
        wy = (1 + vy * wx) // vx
        e, j, s = [rng.randint(-9000, 9000) for _ in range(2)], rng.randint(-1, 1), rng.choice([-1, 1])
        ps = [e, [e[0] + vx, e[1] + vy], [e[0] + j * vx + s * wx, e[1] + j * vy + s * wy]]
        rng.shuffle(ps)
        for f in ("wind", "area2"):
            add(f, [x for q in ps for x in q])
        if d != [0, 0]:
            k = [rng.choice(k) for _ in range(3)] if rng.random() < 0.3 else k
            if k[0] != k[1]:
                add("between", [x for m in k for x in (a[0] + m * d[0], a[1] + m * d[1])])
        b, b2 = box(t), box(t)
        if rng.random() < 0.3:  # share an edge or corner
            b2 = [b[2], b[3], b[2] + rng.randint(0, t), b[3] + rng.randint(0, t)]
        elif rng.random() < 0.3:
            b2 = [b[0] + rng.randint(0, 1), b[1], b[2], b[3] - rng.randint(0, 1)]
            b2 = [b2[0], b2[1], max(b2[0], b2[2]), max(b2[1], b2[3])]
        p = r(2) if rng.random() < 0.6 else [rng.choice([b[0], b[2]]), rng.choice([b[1], b[3]])]
        add("inside", p + b, den)
        if rng.random() < 0.5:  # only the order of the coordinates matters: neighbouring numbers, giants, thousandths
            den = rng.choice([-1, -2, -3, -4, 1024, 1 << 20])
        add("order", [rng.randint(-t, t) for _ in range(2)] + [rng.randint(-1, 1)], den)
        add("order", [rng.choice(b) for _ in range(3)], den)
        add("overlap", rng.choice([b + b2, b2 + b]), den)
        add("contains", rng.choice([b + b2, b2 + b, b + b]), den)
        add("expandp", b + p, den)
        add("expandb", b + b2, den)
        add("clip", b + b2, den)
        den = rng.choice([1, 2, 4, 8, 1024, 1 << 20])
        u = rng.choice([0, 0, 1, -1])
        big = rng.choice([t, t, 10 ** 9])
        rb = lambda k: [rng.randint(-big, big) for _ in range(k)]
        half = lambda x: x if den == 1 or rng.random() < 0.5 else (x // den) * den + den // 2
        add("round", [half(x) for x in rb(1)], den, u)
        add("pf2p", [half(x) for x in rb(2)], den, u)
        add("bf2b", [half(x) for x in rb(4)], den, u)
        den = rng.choice([1, 2, 4, 8])
        add("p2pf", rb(2))
        add("b2bf", rb(4))
        add("arith", [rng.randint(-t, t) for _ in range(3)], 1)
        add("vec", [rng.randint(-t, t) for _ in range(4)] + [rng.choice([1, 2, -2, 4, 64])])
        add("ivec", [rng.randint(-t, t) for _ in range(4)] + [rng.choice([1, 2, -2, 3, 7])])
        add("units", [rng.randint(-t, t)], den)
        add("angle", [rng.randint(-60, 60)])
        t3 = min(t, 100)
        add("approx", [rng.randint(-t3, t3) for _ in range(4)] + [rng.choice([0, 1, 5, 5, t3])], rng.choice([1, 2, 1024, 1 << 20]))
        add("approx", rng.choice([[0, 5, 3, 1, 5], [7, 7, 7, 7, 0], [3, 0, 0, 4, 5], [3, 0, 0, 4, 6], [-5, 0, 0, 12, 13], [-5, 0, 0, 12, 14]]), rng.choice([1, 8, 1 << 20]))
        add("len", [rng.randint(-10, 10) for _ in range(6)])
    for i in range(-9, 10):
        for den in (1, 2, 4, 8):
            for u in (0, 1, -1):
                add("round", [i], den, u)
    for x in (1, -1, 3, 1999999999, 1431655765):
        for u in (-2, -1, 0, 1, 2):
            add("bf2b", [x, -x, 1, -1], 2, u)
    return cases


def checks(Check):
    tr = {"module": "TracePlane", "cfg": "TracePlane"}
    vis = [{"module": "VisImpl", "cfg": "MCVis", "workers": 4},
           {"module": "VisImpl", "cfg": "MCVisMut", "expect": "violated"},
           {"module": "VisImpl", "cfg": "MCVisDeep", "tiers": ("thorough",), "workers": 8}]
    dad = [{"module": "DadImpl", "cfg": "MCDad"}, {"module": "DadImpl", "cfg": "MCDadMut", "expect": "violated"}]
    return [Check("C19", tr, c19, vis, limit_s=20), Check("C20", tr, c20, vis, limit_s=20),
            Check("C21", tr, c21, dad, limit_s=20),
            Check("C22", {"module": "TraceTaut", "cfg": "TraceTaut"}, c22,
                  [{"module": "FunnelImpl", "cfg": "MCFunnelShapes"}, {"module": "FunnelImpl", "cfg": "MCFunnel"},
                   {"module": "FunnelImpl", "cfg": "MCFunnelMut", "expect": "violated"},
                   {"module": "FunnelImpl", "cfg": "MCFunnelMut2", "expect": "violated"}]
                  + [{"module": "FunnelImpl", "cfg": c, "tiers": ("thorough",), "workers": 8}
                     for c in ("MCFunnelUnique", "MCFunnelPent", "MCFunnelDeep", "MCFunnelShapesDeep")], limit_s=20),
            Check("C25", tr, c25, [{"module": "BoxLaws", "cfg": "MCBoxLaws"}])]
