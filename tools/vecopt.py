"""Cases for VecOption (C01-C04)."""


def _fresh(ops, start=1):
    """Gives every item handed in an identity of its own (the specification treats items parametrically)."""
    n = [start - 1]

    def new(x):
        if x == 0:
            return 0
        n[0] += 1
        return n[0]
    res = []
    for op in ops:
        op = dict(op)
        if "x" in op:
            op["x"] = new(op["x"])
        if "xs" in op:
            op["xs"] = [new(x) for x in op["xs"]]
        res.append(op)
    return res


def _case(ops, elem):
    if elem in ("unit", "ghost"):  # all items look alike: 1
        one = lambda x: min(x, 1)
        ops = [dict(o, **{k: one(o[k]) if k == "x" else [one(x) for x in o[k]] for k in ("x", "xs") if k in o})
               for o in ops if o["ev"] not in ("bump", "clone_drop")]
    elif elem == "tok":
        # bump would change identities; it is exercised with the other element types
        ops = _fresh([o for o in ops if o["ev"] != "bump"])
    else:
        # item sizes matter to memory moves; make items distinguishable, so that order is visible
        ops = _fresh(ops)
    for i, o in enumerate(ops):
        if "take" in o:  # the way in which the items are asked for
            o["st"] = (len(ops) * 3 + i + o["take"]) % 4
    return {"k": "vecopt", "elem": elem, "ops": ops}


ALL_KINDS = ["push", "push_some", "push_none", "pop", "pop_some", "replace", "replace_some", "replace_none",
             "set", "set_some", "set_none", "swap", "get", "get_clone", "write", "drain", "extend",
             "extend_blind", "compact", "compact_write", "clone_keep", "clone_drop", "views", "bump",
             "some_into_vec", "into_iter", "into_some_iter", "from_vec", "repeat_none", "collect",
             "collect_blind", "new", "reserve", "with_capacity"]


def random_history(rng, steps, big, weights=None):
    """A random history whose contents reach past the 32-bit blocks of the presence bitmap."""
    ops = []
    n = 0

    def presence(k):
        style = rng.random()
        if style < 0.3:
            return [rng.randint(0, 1) for _ in range(k)]
        if style < 0.5:
            return [1] * k
        if style < 0.6:
            return [0] * k
        p, out, cur = rng.choice([0.05, 0.2]), [], rng.randint(0, 1)
        for _ in range(k):
            if rng.random() < p:
                cur ^= 1
            out.append(cur)
        return out
    size = lambda: rng.choice([0, 1, 2, 5, 31, 32, 33, 34, 63, 64, 65, 66, 95, 96, 97, 100, 130]) if big else rng.randint(0, 12)
    idx = lambda: (rng.choice([0, n - 1, 31, 32, 33, 63, 64, rng.randrange(n)]) if n and rng.random() < 0.95
                   else n + rng.randint(0, 2) if rng.random() < 0.7 else far())
    far = lambda: rng.choice([900000000, 10 ** 9]) + rng.randint(0, 3)
    ops.append({"ev": rng.choice(["collect", "collect_blind"]), "xs": presence(size())})
    n = len(ops[0]["xs"])
    weights = weights or {}
    kinds = []
    for k in ALL_KINDS:
        kinds += [k] * weights.get(k, 4 if k in ("push", "push_none", "set", "drain", "swap", "replace", "extend", "pop", "views")
                                   else 1 if k in ("some_into_vec", "into_iter", "into_some_iter", "new", "with_capacity") else 2)
    for _ in range(steps):
        k = rng.choice(kinds)
        op = {"ev": k}
        if k in ("push",):
            op["x"] = rng.randint(0, 1)
            n += 1
        elif k == "push_some":
            op["x"] = 1
            n += 1
        elif k == "push_none":
            n += 1
        elif k == "pop":
            n = max(0, n - 1)
        elif k in ("replace", "set"):
            op.update(i=idx(), x=rng.randint(0, 1))
        elif k in ("replace_some", "set_some", "write"):
            op.update(i=idx(), x=1)
        elif k in ("replace_none", "set_none", "get_clone"):
            op.update(i=idx())
        elif k == "get":
            op.update(i=idx(), how=rng.choice(["ref", "mut", "copy"]))
        elif k == "swap":
            op.update(a=idx(), b=idx())
        elif k == "drain":
            a, b = sorted((rng.randint(0, n), rng.randint(0, n)))
            if rng.random() < 0.5:
                b = min(n, a + rng.choice([0, 1, 2, 3, 31, 32, 33]))
            lk, hk = rng.choice([0, 1, 1, 2]), rng.choice([0, 1, 2, 2])
            if rng.random() < 0.05:
                a, b = b + rng.randint(0, 2), a
            op.update(lk=lk, lo=max(0, a - 1) if lk == 2 else a, hk=hk, hi=max(0, b - 1) if hk == 1 else b,
                      take=rng.choice([0, 1, 2, 3, 40, 200]))
            if rng.random() < 0.05:
                op["hi"] = far()
            if rng.random() < 0.05:
                op["lo"] = far()
            lo = 0 if lk == 0 else op["lo"] + (lk == 2)
            hi = n if hk == 0 else op["hi"] + (hk == 1)
            if lo <= hi <= n:
                n -= hi - lo
        elif k in ("extend", "extend_blind"):
            op["xs"] = presence(min(size(), max(0, 140 - n)))
            n += len(op["xs"])
        elif k in ("from_vec",):
            n = size()
            op["xs"] = [1] * n
        elif k == "repeat_none":
            n = size()
            op["n"] = n
        elif k in ("collect", "collect_blind"):
            op["xs"] = presence(size())
            n = len(op["xs"])
        elif k in ("new", "with_capacity", "some_into_vec", "into_iter", "into_some_iter"):
            n = 0
            if k == "with_capacity":
                op["n"] = size()
            elif k != "new" and k != "some_into_vec":
                op["take"] = rng.choice([0, 1, 2, 31, 33, 200])
        elif k == "reserve":
            op["n"] = size()
        elif k == "bump":
            op["how"] = rng.choice(["iter_mut", "some_index_mut", "get_mut", "runs_mut"])
        elif k == "pop_some" or k.startswith("compact"):
            # the length is no longer known here: index choice is only a heuristic
            n = max(0, n - 1) if k == "pop_some" else n // 2
        ops.append(op)
    return ops


def runs_of(rng, n):
    """A presence pattern of length n, mostly in stretches, with changes at the ends of bitmap blocks."""
    xs, cur = [], rng.randint(0, 1)
    p = rng.choice([0.002, 0.02, 0.1, 0.5])
    for j in range(n):
        if rng.random() < p or (j % 32 in (0, 31) and rng.random() < 0.2):
            cur ^= 1
        xs.append(cur)
    return xs


def wide(ctx, elems, counts):
    """Histories over long contents: past 255, past a thousand, past 65535."""
    rng, cases = ctx.rng, []
    sizes = [[254, 255, 256, 257, 287, 288, 289, 300], [511, 512, 513, 1000, 1023, 1024, 1025, 2048, 2049], [65535, 65536, 65537, 66000]]
    for size, count in zip(sizes, counts):
        for i in range(count):
            n = rng.choice(size)
            ops = [rng.choice([{"ev": "collect", "xs": runs_of(rng, n)}, {"ev": "collect_blind", "xs": runs_of(rng, n)},
                               {"ev": "from_vec", "xs": [1] * n}, {"ev": "repeat_none", "n": n}])]
            edge = lambda: min(n - 1, rng.choice([0, 31, 32, 254, 255, 256, n - 1, n - 2, n // 2, rng.randrange(n), rng.randrange(n)]))
            for _ in range(rng.randint(2, 6)):
                k = rng.choice(["set", "swap", "push", "pop", "pop_some", "replace_none", "write", "drain", "drain", "extend", "clone_keep", "get"])
                op = {"ev": k}
                if k == "set":
                    op.update(i=edge(), x=rng.randint(0, 1))
                elif k == "swap":
                    op.update(a=edge(), b=edge())
                elif k == "push":
                    op["x"] = rng.randint(0, 1)
                elif k == "replace_none":
                    op["i"] = edge()
                elif k == "write":
                    op.update(i=edge(), x=1)
                elif k == "get":
                    op.update(i=edge(), how=rng.choice(["ref", "mut", "copy"]))
                elif k == "drain":
                    a, b = sorted((edge(), edge()))
                    b = rng.choice([b, min(n, a + rng.choice([0, 1, 2, 31, 32, 33, 255, 256, 257]))])
                    op.update(lk=1, lo=a, hk=2, hi=b, take=rng.choice([0, 1, 3, 70000]))
                elif k == "extend":
                    op["xs"] = runs_of(rng, rng.choice([1, 33, 255, 256, 257, 300]))
                ops.append(op)
            ops.append({"ev": "views"})
            ops.append(rng.choice([{"ev": "compact"}, {"ev": "compact_write"}, {"ev": "some_into_vec"}, {"ev": "clone_keep"},
                                   {"ev": "clone_drop"}, {"ev": "bump", "how": rng.choice(["iter_mut", "some_index_mut", "get_mut", "runs_mut"])},
                                   {"ev": "into_iter", "take": rng.choice([0, 256, n, n + 1])},
                                   {"ev": "into_some_iter", "take": rng.choice([0, 256, n, n + 1])}]))
            cases.append(_case(ops, elems[i % len(elems)]))
    return cases


def histories(ctx, elems, sim, rnd, weights=None):
    cases = []
    for i, h in enumerate(ctx.gen("GenVecOption", "GenVecOption", env={"DEPTH": "25", "ALLLEN": "0"},
                                  simulate=sim, depth=26)):
        cases.append(_case(h, elems[i % len(elems)]))
    for i in range(rnd):
        big = i % 3 > 0
        cases.append(_case(random_history(ctx.rng, ctx.rng.randint(4, 30), big, weights), elems[i % len(elems)]))
    return cases


def transitions(ctx, elems, n):
    """Every operation from every small contents (enumerated by TLC), then a look through all views."""
    cases = []
    for i, h in enumerate(ctx.gen("GenVecOption", "GenVecOptionAll", env={"DEPTH": "0", "ALLLEN": str(n)})):
        cases.append(_case(h + [{"ev": "views"}], elems[i % len(elems)]))
    # packed: many short histories per case would save little; keep one history per case
    return cases


def corners(ctx, elems):
    """Positions at the ends of the number range, and off by 2^32."""
    cases = []
    far = [10 ** 9 + 3, 10 ** 9 + 2, 9 * 10 ** 8, 9 * 10 ** 8 + 1]
    for n in (0, 1, 3, 33):
        ops = []
        for f in far:
            for lk in (0, 1, 2):
                for hk in (0, 1, 2):
                    for lo, hi in ((f, f), (0, f), (f, 0), (f, n)):
                        ops.append({"ev": "drain", "lk": lk, "lo": lo, "hk": hk, "hi": hi, "take": 1})
            ops += [{"ev": "get", "i": f, "how": h} for h in ("ref", "mut", "copy")]
            ops += [{"ev": "swap", "a": 0, "b": f}, {"ev": "swap", "a": f, "b": f}, {"ev": "replace", "i": f, "x": 1},
                    {"ev": "replace", "i": f, "x": 0}, {"ev": "set_none", "i": f}, {"ev": "write", "i": f, "x": 1}]
        for o in ops:
            cases.append(_case([{"ev": "collect", "xs": [i % 3 % 2 for i in range(n)]}, o], elems[len(cases) % len(elems)]))
    return cases


def c01(ctx):
    elems = ["i32", "wide", "tok", "i32", "unit", "tok"]
    return wide(ctx, elems, ctx.pick((60, 20, 4), (800, 300, 40))) + corners(ctx, elems) + transitions(ctx, elems, ctx.pick(2, 3)) + histories(ctx, elems, ctx.pick(300, 4000), ctx.pick(600, 8000))


def faults(ctx, count):
    rng, cases = ctx.rng, []
    for _ in range(count):
        big = rng.random() < 0.3
        n = rng.choice([1, 2, 3, 4, 5, 7]) if not big else rng.choice([32, 33, 40, 64, 65])
        ops = [{"ev": "collect", "xs": [int(rng.random() < 0.75) for _ in range(n)]}]
        for _ in range(rng.randint(0, 4)):
            ops.append(rng.choice([{"ev": "push", "x": 1}, {"ev": "set", "i": rng.randrange(n), "x": rng.randint(0, 1)},
                                   {"ev": "swap", "a": rng.randrange(n), "b": rng.randrange(n)},
                                   {"ev": "replace_none", "i": rng.randrange(n)}]))
        ops = _fresh(ops)
        ids = [x for o in ops for x in o.get("xs", []) + [o.get("x", 0)] if x]
        kind = rng.choice(["fault_drop", "fault_iter", "fault_some_iter", "fault_drain", "fault_clone", "fault_set",
                           "fault_extend", "fault_collect", "fault_forget"])
        op = {"ev": kind, "x": rng.choice(ids + [10 ** 6]) if ids else 10 ** 6}
        if kind in ("fault_iter", "fault_some_iter"):
            op["take"] = rng.randint(0, n)
        elif kind in ("fault_drain", "fault_forget"):
            a, b = sorted((rng.randint(0, n), rng.randint(0, n)))
            op.update(lo=a, hi=b, take=rng.randint(0, 3))
        elif kind in ("fault_extend", "fault_collect"):
            k = rng.choice([1, 2, 5, 33])
            op = {"ev": kind, "x": 10 ** 6, "xs": [i + 500 if rng.random() < 0.7 else 0 for i in range(k)], "at": rng.randint(0, k)}
        elif kind == "fault_set":
            op["i"] = rng.randrange(n)
        cases.append({"k": "vecopt", "elem": "tok", "ops": ops + [op]})
    return cases


def small_faults(n):
    """Every presence pattern up to length n, every faulting item, every kind of fault and consumption."""
    cases = []
    for ln in range(1, n + 1):
        for bits in range(1, 1 << ln):
            xs, k = [], 0
            for i in range(ln):
                if bits >> i & 1:
                    k += 1
                xs.append(k if bits >> i & 1 else 0)
            for x in range(1, k + 1):
                base = [{"ev": "collect", "xs": xs}]
                add = lambda op: cases.append({"k": "vecopt", "elem": "tok", "ops": base + [op]})
                add({"ev": "fault_drop", "x": x})
                add({"ev": "fault_clone", "x": x})
                for t in range(ln + 1):
                    add({"ev": "fault_iter", "x": x, "take": t})
                    add({"ev": "fault_some_iter", "x": x, "take": t})
                for i in range(ln):
                    add({"ev": "fault_set", "x": x, "i": i})
                for a in range(ln + 1):
                    for b in range(a, ln + 1):
                        for t in range(0, b - a + 1):
                            add({"ev": "fault_drain", "x": x, "lo": a, "hi": b, "take": t})
                            if x == 1:
                                add({"ev": "fault_forget", "x": 10 ** 6, "lo": a, "hi": b, "take": t})
    return cases


def c02(ctx):
    elems = ["tok", "tok", "tok", "ghost"]
    return (wide(ctx, elems, ctx.pick((60, 20, 4), (800, 300, 40))) + transitions(ctx, ["tok"], ctx.pick(2, 3)) + transitions(ctx, ["ghost"], 2) + histories(ctx, elems, ctx.pick(300, 4000), ctx.pick(600, 9000))
            + faults(ctx, ctx.pick(600, 10000)) + small_faults(ctx.pick(3, 4)))


def patterns(ctx, elems, count):
    """Presence patterns around the bitmap blocks, each seen through every view and conversion."""
    rng, cases = ctx.rng, []
    for i in range(count):
        n = rng.choice([0, 1, 3, 8, 30, 31, 32, 33, 34, 60, 63, 64, 65, 66, 96, 97, 128, 129])
        xs, cur = [], rng.randint(0, 1)
        p = rng.choice([0.02, 0.1, 0.3, 0.5])
        for j in range(n):
            if rng.random() < p or (j % 32 == 0 and rng.random() < 0.4):
                cur ^= 1
            xs.append(cur)
        ops = [{"ev": "collect", "xs": xs}, {"ev": "views"}]
        for _ in range(rng.randint(0, 5)):
            if n:
                a = rng.randrange(n)
                ops.append(rng.choice([{"ev": "set", "i": a, "x": rng.randint(0, 1)}, {"ev": "swap", "a": a, "b": rng.randrange(n)},
                                       {"ev": "write", "i": a, "x": 1}, {"ev": "push", "x": rng.randint(0, 1)}, {"ev": "pop"},
                                       {"ev": "bump", "how": rng.choice(["iter_mut", "some_index_mut", "get_mut", "runs_mut"])}]))
        ops.append({"ev": "views"})
        ops.append(rng.choice([{"ev": "compact"}, {"ev": "compact_write"}, {"ev": "some_into_vec"}, {"ev": "clone_keep"},
                               {"ev": "into_iter", "take": rng.choice([0, n, n + 1])}, {"ev": "into_some_iter", "take": rng.choice([0, n, n + 1])}]))
        ops.append({"ev": "views"})
        ops.append({"ev": "extend", "xs": [rng.randint(0, 1) for _ in range(rng.choice([0, 1, 5, 33]))]})
        ops.append({"ev": "views"})
        cases.append(_case(ops, elems[i % len(elems)]))
    return cases


def c03(ctx):
    elems = ["i32", "tok", "wide", "tok", "unit"]
    w = {"compact": 4, "compact_write": 4, "views": 10, "bump": 5}
    return (wide(ctx, elems, ctx.pick((60, 20, 4), (800, 300, 40))) + transitions(ctx, ["i32"], ctx.pick(2, 3)) + patterns(ctx, elems, ctx.pick(600, 10000))
            + histories(ctx, elems, ctx.pick(200, 2500), ctx.pick(300, 4000), w))


def c04(ctx):
    rng, cases = ctx.rng, []
    # all pairs of small contents (TLC's enumeration of contents is the Cartesian product)
    small = [[]]
    for _ in range(2):
        small += [s + [x] for s in small for x in (0, 1, 2, 90, 91)]
    small = [list(t) for t in sorted({tuple(s) for s in small})]
    for how in range(6):
        for g in range(0, len(small), 12):
            for h in range(0, len(small), 12):
                vals = small[g:g + 12] + small[h:h + 12]
                cases.append({"k": "vecopt", "elem": "rel", "vals": vals, "hows": [(how + j) % 6 for j in range(len(vals))]})
    if not ctx.thorough:
        cases = cases[: 48]
    for _ in range(ctx.pick(60, 1500)):
        n = rng.choice([1, 2, 3, 5, 31, 32, 33, 64, 65, 255, 256, 257, 1000]) if _ else 66000
        base = [rng.choice([0, 1, 2, 3]) for _ in range(n)]
        vals = [base]
        for _ in range(6):
            w = list(rng.choice(vals))
            if w and rng.random() < 0.8:
                w[rng.randrange(len(w))] = rng.choice([0, 1, 2, 3, 90])
            if rng.random() < 0.3:
                w = w[:-1] if rng.random() < 0.5 else w + [rng.choice([0, 1])]
            vals.append(w)
        if n > 65000:
            vals = vals[:3]
        cases.append({"k": "vecopt", "elem": "rel", "vals": vals, "hows": [rng.randrange(6) for _ in vals]})
    return cases


def checks(Check):
    tr = lambda mode: {"module": "TraceVecOption", "cfg": "TraceVecOption", "env": {"MODE": mode}}
    model = {"module": "MCVecOption", "cfg": "MCVecOption"}
    impl = [{"module": "VecOptionImpl", "cfg": "MCVecOptionImpl"},
            {"module": "VecOptionImpl", "cfg": "MCVecOptionImplDeep", "tiers": ("thorough",), "workers": 8, "timeout": 1800}]
    mut = lambda m, *tiers: {"module": "VecOptionImpl", "cfg": "MCVecOptionImpl", "expect": "violated",
                             "env": {"MUT": m}, "tiers": tiers or ("quick", "thorough")}
    note = ["items are treated parametrically by VecOption (generic T), so one identity per item suffices",
            "the harness is built with overflow checks and debug assertions, as the repository's tests are"]
    return [Check("C01", tr("C01"), c01, [model] + impl + [mut("truncate"), mut("copyback", "thorough"), mut("keepbit", "thorough"), mut("poplen", "thorough"), mut("swapsame", "thorough")], assumptions=note),
            Check("C02", tr("C02"), c02, [model] + impl + [mut("takekeeps"), mut("droplen"), mut("intovec", "thorough"), mut("clonelen", "thorough"), mut("setlate", "thorough")], assumptions=note + [
                "memory outside an allocation is detected by guard zones of 32 bytes around every block, checked when it is freed"]),
            Check("C03", tr("C03"), c03, [model] + impl + [mut("compactbits")], assumptions=note),
            Check("C04", tr("C04"), c04, [model], assumptions=note)]
