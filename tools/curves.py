"""Cases for the cubic solver, the spline router and the elliptic wedge (C23, C24, C28)."""
import heapq

from planar import cross, edges, on_seg, scaled, sgn, simple, where, winding


# ---------------------------------------------------------------------------------------------------
# C24

def expand(lead, fs, quad):
    p = [lead]
    for f in [[-r, q] for q, r in fs] + ([quad] if quad else []):
        p = [sum(p[j] * f[i - j] for j in range(len(p)) if 0 <= i - j < len(f)) for i in range(len(p) + len(f) - 1)]
    return p + [0] * (4 - len(p))


def c24(ctx):
    rng, cases = ctx.rng, []

    def add(lead, fs, quad=(), den=1):
        co = expand(lead, fs, list(quad))
        if max(map(abs, co)) < 2 ** 30 and len(co) == 4:
            cases.append({"k": "solve", "co": co, "den": den, "lead": lead, "fs": [list(f) for f in fs], "quad": list(quad)})
    for a in range(-6, 7):
        for lead in (-3, 1, 2):
            add(lead, [(1, a)])
            for b in range(a, 7):
                add(lead, [(1, a), (1, b)])
                for c in range(b, 7):
                    add(lead, [(1, a), (1, b), (1, c)])
    for lead in range(-20, 21):
        for den in (1, 8):
            add(lead, [], (), den)
    quads = [(c, b, a) for a in (1, 2, 3) for b in range(-5, 6) for c in range(1, 9) if b * b - 4 * a * c < 0]
    for q in quads:
        for lead in (1, -2):
            add(lead, [], q)
            for r in (-4, -1, 0, 1, 3):
                add(lead, [(1, r)], q)
                add(lead, [(2, r)], q)
    for _ in range(ctx.pick(6000, 80000)):
        lead = rng.choice([1, -1, 1, 2, -3, 7, -50, 0])
        top = rng.choice([1, 3, 10, 50])
        fs = []
        quad = rng.choice(quads) if rng.random() < .3 else ()
        if quad and rng.random() < .3:  # far from the origin, barely without roots
            s, h = rng.randint(-15, 15), rng.choice([1, 1, 2, 9])
            quad = (s * s + h, -2 * s, 1)
        for _ in range(rng.choice([0, 1, 2, 3, 3, 3]) if not quad else rng.choice([0, 1, 1])):
            q = rng.choice([1, 1, 1, 2, 3, 4])
            fs.append((q, rng.randint(-top, top)))
        if len(fs) > 1 and rng.random() < .3:
            q, r = fs[0]
            fs[1] = (q, r + rng.choice([-1, 1]))
        add(lead, fs, quad, rng.choice([1, 1, 2, 8, 64, 1 << 16, 1 << 20]))
    for _ in range(ctx.pick(600, 6000)):  # all roots close to zero
        q = rng.choice([16, 100, 900])
        ps = rng.sample(range(-6, 7), rng.choice([2, 3, 3]))
        add(rng.choice([1, -1]), [(q, x) for x in ps], (), rng.choice([1, 64]) if q < 900 else 1)
    return cases


# ---------------------------------------------------------------------------------------------------
# C23

def proper(a, b, c, d):
    return sgn(cross(a, b, c)) * sgn(cross(a, b, d)) < 0 and sgn(cross(c, d, a)) * sgn(cross(c, d, b)) < 0


def taut(p, a, b):
    """A shortest path in polygon p between two inner points, which may list straight vertices."""
    pts = [a, b] + p

    def sees(u, v):
        if u == v:
            return False
        on = [w for w in p if w not in (u, v) and on_seg(u, v, w)]
        if any(proper(u, v, c, d) for c, d in edges(p)):
            return False
        c = sorted([u, v] + on, key=lambda w: (w[0] - u[0]) ** 2 + (w[1] - u[1]) ** 2)
        dbl = [(2 * x, 2 * y) for x, y in p]
        return all(where(dbl, (s[0] + t[0], s[1] + t[1])) >= 0 for s, t in zip(c, c[1:]))
    dist, prev, todo = {a: 0}, {}, [(0, a)]
    while todo:
        d, u = heapq.heappop(todo)
        if u == b:
            break
        if d > dist[u]:
            continue
        for v in pts:
            if sees(u, v):
                e = d + ((u[0] - v[0]) ** 2 + (u[1] - v[1]) ** 2) ** .5
                if e < dist.get(v, 1e9) - 1e-9:
                    dist[v], prev[v] = e, u
                    heapq.heappush(todo, (e, v))
    if b not in prev:
        return None
    r = [b]
    while r[-1] != a:
        r.append(prev[r[-1]])
    return r[::-1]


def c23(ctx):
    rng, cases = ctx.rng, []

    def tangents(t):
        def one(u, v):
            r = rng.random()
            if r < .25:
                return (0, 0)
            if r < .6:
                return (rng.randint(-10, 10), rng.randint(-10, 10))
            d = (v[0] - u[0], v[1] - u[1])
            return (d[0] + rng.randint(-3, 3), d[1] + rng.randint(-3, 3))
        return [one(t[0], t[1]), one(t[-2], t[-1])]

    def add(t, bars):
        if len(t) >= 2 and len(set(t)) == len(t):
            cases.append({"k": "spline", "bars": bars, "path": t, "evs": tangents(t)})
    want = ctx.pick(2500, 30000)
    while len(cases) < want * .5:  # paths in polygons, with the edges as barriers
        q, top = winding(rng)
        inner = [(x, y) for x in range(top + 1) for y in range(top + 1) if where(q, (x, y)) == 1] if top <= 20 else \
            [z for z in ((rng.randint(0, top), rng.randint(0, top)) for _ in range(60)) if where(q, z) == 1]
        if len(inner) < 2:
            continue
        for _ in range(3):
            a, b = rng.sample(inner, 2)
            if a == b:
                continue
            t = taut(q, a, b)
            if t:
                if rng.random() < .5:
                    t = t[::-1]
                for _ in range(2):
                    add(t, edges(q))
    def turned():  # a barrier that the tangents lead through right at the start or the end of a long path
        u = lambda: rng.choice([-1, 1])
        s0 = (rng.randint(-70, 70), rng.randint(-70, 70))
        w = (rng.randint(0, 6) * u(), rng.randint(0, 6) * u())
        if w == (0, 0):
            return
        b = (s0[0] + w[0], s0[1] + w[1])
        t = [s0, b]
        for _ in range(rng.choice([1, 1, 1, 2])):
            t.append((rng.randint(-70, 70), rng.randint(-70, 70)))
        if len(set(t)) < len(t):
            return
        bars = []
        for _ in range(rng.choice([1, 1, 2])):
            d = (rng.randint(1, 3) * u(), rng.randint(0, 3) * u())
            if rng.random() < .5:
                d = d[::-1]
            k = rng.choice([5, 10, 20])
            a = b if rng.random() < .7 else (s0[0] + rng.randint(-3, 3), s0[1] + rng.randint(-3, 3))
            e = (a[0] + k * d[0], a[1] + k * d[1])
            if rng.random() < .3:  # almost upright or level
                w = rng.choice([1, 2, 3]) * u()
                e = (a[0] + w, e[1]) if rng.random() < .5 else (e[0], a[1] + w)
                if e == a:
                    continue
            if any(proper(x, y, a, e) for x, y in zip(t, t[1:])) or any(a != x != e and on_seg(a, e, x) for x in t):
                continue
            bars.append((a, e))
        if not bars:
            return
        a, e = rng.choice(bars)
        f = rng.uniform(.1, .9)
        m = (a[0] + f * (e[0] - a[0]) - s0[0], a[1] + f * (e[1] - a[1]) - s0[1])
        evs = [(round(8 * m[0]), round(8 * m[1])), rng.choice([(0, 0), (rng.randint(-9, 9), rng.randint(-9, 9))])]
        if rng.random() < .5:
            t, evs = t[::-1], [(-x, -y) for x, y in evs[::-1]]
        cases.append({"k": "spline", "bars": bars, "path": t, "evs": evs})
    while len(cases) < want * .8:
        turned()
    while len(cases) < want:  # any path and barriers
        top = rng.choice([3, 10, 30, 60])
        P = lambda: (rng.randint(0, top), rng.randint(0, top))
        t = []
        for _ in range(rng.choice([2, 2, 3, 3, 4, 5, 6, 8])):
            x = P()
            if x not in t:
                t.append(x)
        bars = []
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            r = rng.random()
            a, b = P(), P()
            if r < .3 and len(t) > 2:  # from a bend
                a = rng.choice(t[1:-1])
            elif r < .4:
                b = (a[0], b[1])
            elif r < .5:
                b = (b[0], a[1])
            elif r < .52:
                b = a
            if rng.random() < .8 and (any(proper(u, v, a, b) for u, v in zip(t, t[1:])) or any(a != w != b and on_seg(a, b, w) for w in t)):
                continue
            bars.append((a, b))
        add(t, bars)
    for i in range(ctx.pick(16, 160)):  # templates of hundreds of points, barriers by the hundred
        n = rng.choice([60, 120, 254, 255, 256, 257, 300])
        shape = rng.choice(["zig", "walk", "any"])
        if shape == "zig":
            w = rng.choice([1, 2, 7])
            t = [((j // 2) % 140, w * (j % 4 // 2) + 10 * (j // 280)) for j in range(n)]
        elif shape == "walk":
            t, x, y = [], 0, 0
            for j in range(n):
                t.append((x, y))
                x, y = (x + 1, y) if x < 145 and (y or 1) % 2 in (0, 1) and rng.random() < .6 else (x, y + 1) if y < 145 else (x + 1, y)
        else:
            t = [(rng.randint(0, 140), rng.randint(0, 140)) for _ in range(n)]
        t = list(dict.fromkeys(t))
        bars = []
        for _ in range(rng.choice([0, 0, 3, 20]) if i % 4 else 0):
            a = (rng.randint(0, 140), rng.randint(0, 140))
            b = (a[0] + rng.randint(-3, 3), a[1] + rng.randint(-3, 3))
            if a == b or any(proper(u, v, a, b) for u, v in zip(t, t[1:])) or any(a != w != b and on_seg(a, b, w) for w in t):
                continue
            bars.append((a, b))
        if i % 4 == 0:  # many barriers, few points
            t = t[:rng.choice([2, 3, 5])]
            for _ in range(rng.choice([255, 256, 257, 300])):
                a = (rng.randint(0, 140), rng.randint(0, 140))
                b = (a[0] + rng.randint(-9, 9), a[1] + rng.randint(-9, 9))
                if a == b or any(proper(u, v, a, b) for u, v in zip(t, t[1:])) or any(a != w != b and on_seg(a, b, w) for w in t):
                    continue
                bars.append((a, b))
        add(t, bars)
    for c in cases:  # scaled, turned by quarters and moved
        if rng.random() < .3:
            c["sc"] = rng.choice([[1, 2], [1, 4], [1, 4], [8, 1], [64, 1]])
        if rng.random() < .5:
            continue
        k, dx, dy = rng.randint(0, 3), rng.randint(-60, 60), rng.randint(-60, 60)

        def turn(p, o=(0, 0)):
            x, y = p
            for _ in range(k):
                x, y = y, -x
            return (x + o[0], y + o[1])
        c["path"] = [turn(p, (dx, dy)) for p in c["path"]]
        c["bars"] = [(turn(a, (dx, dy)), turn(b, (dx, dy))) for a, b in c["bars"]]
        c["evs"] = [turn(v) for v in c["evs"]]
    return cases


# ---------------------------------------------------------------------------------------------------
# C28

def c28(ctx):
    rng, cases = ctx.rng, []

    def add(a, b, i, j, ctr=(0, 0)):
        cases.append({"k": "wedge", "ctr": list(ctr), "ax": [a, b], "of": 24, "ang": [i, j]})
    for i in range(24):
        for j in range(25):
            add(*rng.choice([(1, 1), (2, 1), (3, 4), (7, 2), (2, 9)]), i, i + j)
    for i in range(-24, 25):
        for a, b in ((1, 1), (2, 3), (5, 2)):
            add(a, b, i, i + 12)
            add(a, b, i, i + 24)
    for _ in range(ctx.pick(1200, 12000)):
        i = rng.randint(-48, 48)
        j = i + rng.choice([rng.randint(-23, 24), rng.randint(-23, 24), 12, -12, 24, 0, 1])
        r = rng.random()
        if r < .05:
            a, b = rng.choice([(1, 20), (20, 1), (20, 3), (1, 9), (9, 1)])
        else:
            a, b = rng.randint(1, 20), rng.randint(1, 20)
            if max(a, b) > 5 * min(a, b):
                b = a
        add(a, b, i, j, (rng.randint(-50, 50), rng.randint(-50, 50)))
        if rng.random() < .5:
            cases[-1]["unit"] = rng.choice([1, 8, 64, 640, 6400, 64000, -16, -4096])
    from math import atan2
    for _ in range(ctx.pick(1500, 15000)):  # any rational direction
        a, b = rng.choice([(1, 1), (1, 5), (5, 1), (2, 3), (9, 4), (rng.randint(10, 20), rng.randint(10, 20)), (1, 20), (20, 1)])
        top = 20 if max(a, b) > 5 * min(a, b) else rng.choice([1, 3, 10, 100])
        d = lambda: next(v for v in iter(lambda: [rng.randint(-top, top), rng.randint(-top, top)], None) if v != [0, 0])
        u, v = d(), d()
        r = rng.random()
        if r < .1:
            v = [-u[0], -u[1]]
        elif r < .2:
            v = list(u)
        elif r < .3:
            v = [-u[1], u[0]]
        elif r < .4:  # close together
            v = [max(-top, min(top, u[0] + rng.randint(-1, 1))), max(-top, min(top, u[1] + rng.randint(-1, 1)))]
            if v == [0, 0]:
                v = list(u)
        same = u[0] * v[1] == u[1] * v[0] and u[0] * v[0] + u[1] * v[1] > 0
        if same:
            v = list(u)
        whole = same and rng.random() < .6
        k = rng.choice([0, 0, 0, 1, -1, -3])
        later = whole or (atan2(v[1], v[0]) < atan2(u[1], u[0]))
        cases.append({"k": "wedge", "ctr": [rng.randint(-50, 50), rng.randint(-50, 50)], "ax": [a, b], "dirs": [u, v], "whole": whole,
                      "turns": [k, k + (1 if later else 0)], "unit": rng.choice([1, 8, 64, 64, 640, 64000, -64])})
    return cases


def checks(Check):
    tr = {"module": "TraceCurves", "cfg": "TraceCurves"}

    def m(mod, name, muts, more=()):
        return ([dict(module=mod, cfg=name)] + [dict(module=mod, cfg=name + x) for x in more]
                + [dict(module=mod, cfg=name + "Deep", tiers=("thorough",), workers=8)]
                + [dict(module=mod, cfg=name + "Mut" + x, expect="violated") for x in muts])
    return [Check("C23", tr, c23, m("RouteImpl", "MCRoute", ("", "2", "3")), limit_s=20),
            Check("C24", tr, c24, m("CubicImpl", "MCCubic", ("", "2"), ("Scaled",)), limit_s=20),
            Check("C28", tr, c28, m("WedgeImpl", "MCWedge", ("", "2")), limit_s=20)]
