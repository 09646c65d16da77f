"""Cases for RampTable, RampTableBuilder and PQ (C05-C07)."""


def c05(ctx):
    rng, cases = ctx.rng, []

    def case(ops, i):
        # make values distinguishable: number them in order of appearance; eq operands follow by content,
        # so they are only produced by the generator specification
        cases.append({"k": "ramp", "elem": ["i64", "string"][i % 2], "new": i % 3, "ops": ops})
    for i, h in enumerate(ctx.gen("GenRamp", "GenRamp", env={"DEPTH": "25"}, simulate=ctx.pick(400, 6000), depth=26)):
        case(h + [{"ev": "views"}], i)
    for i in range(ctx.pick(500, 8000)):
        ops, keys, fresh = [], 0, 0
        pe = rng.choice([0.1, 0.4, 0.7])
        rows, tail = [], []
        for _ in range(rng.randint(3, 40)):
            r = rng.random()
            fresh += 1
            if r < 0.35:
                ops.append({"ev": "push", "x": fresh})
                tail.append(fresh)
            elif r < 0.35 + 0.3 * pe + 0.1:
                ops.append({"ev": "finish"})
                rows.append(tail)
                tail = []
            elif r < 0.8:
                xs = list(range(fresh, fresh + rng.choice([0, 0, 1, 2, 5, 20])))
                fresh += len(xs)
                ops.append({"ev": "entry", "xs": xs, "how": rng.choice(["copy", "clone", "extend", "blind"])})
                rows.append(tail + xs)
                tail = []
            elif r < 0.82:
                ops.append({"ev": "clear"})
                rows, tail = [], []
            elif r < 0.9:
                k = rng.randrange(len(rows)) if rows and rng.random() < 0.9 else len(rows) + rng.randint(0, 2) \
                    if rng.random() < 0.8 else rng.choice([9 * 10 ** 8, 10 ** 9]) + rng.randint(0, 3)
                ops.append({"ev": "key", "i": k, "how": rng.choice(["values", "mut", "range", "index", "indexmut"])})
            elif r < 0.96:
                ks = [k for k, x in enumerate(rows) if x]
                if ks:
                    k = rng.choice(ks)
                    j = rng.randrange(len(rows[k])) if rng.random() < 0.9 else len(rows[k])
                    ops.append({"ev": "write", "i": k, "j": j, "x": fresh, "how": rng.choice(["iter", "values", "index", "all"])})
                    if j < len(rows[k]):
                        rows[k][j] = fresh
            else:
                ops.append({"ev": "views"})
        ops.append({"ev": "views"})
        # equality against a table that differs in one detail, or in none
        import copy
        er, et = copy.deepcopy(rows), list(tail)
        how = rng.randrange(5)
        if how == 1 and er:
            et = er.pop() + et
        elif how == 2:
            er.insert(rng.randint(0, len(er)), [])
        elif how == 3 and any(er):
            k = rng.choice([k for k, x in enumerate(er) if x])
            er[k][rng.randrange(len(er[k]))] += 500
        elif how == 4 and len(er) > 1:
            k = rng.randrange(len(er) - 1)
            er[k + 1] = er[k][-1:] + er[k + 1]
            er[k] = er[k][:-1]
        ops.append({"ev": "eq", "orows": er, "otail": et})
        case(ops, i)
    for i in range(ctx.pick(60, 600)):  # many keys, or many values of a key
        size = rng.choice([254, 255, 256, 257, 300, 1000] if i >= 4 else [65535, 65536, 65537, 66000])
        ops, rows, tail, fresh = [], [], [], 1

        def entry(xs):
            nonlocal tail
            rows.append(tail + xs)
            tail = []
            return {"ev": "entry", "xs": xs, "how": rng.choice(["copy", "clone", "extend", "blind"])}
        if i % 2:  # long rows
            for _ in range(rng.randint(1, 3)):
                n = rng.choice([0, 1, 5, size])
                ops.append(entry(list(range(fresh, fresh + n))))
                fresh += n
                if rng.random() < 0.5:
                    ops.append({"ev": "push", "x": fresh})
                    tail.append(fresh)
                    fresh += 1
        else:  # many rows
            n = size
            style, hole = rng.choice(["mixed", "holes", "rare"]), 0
            for _ in range(n):
                k = rng.choice([0, 0, 1, 1, 2, 3])
                if style == "holes":  # long sequences of keys without values
                    if hole == 0 and rng.random() < .1:
                        hole = rng.choice([15, 16, 17, 63, 64, 65, 127, 129, 255, 256, 257, 260, 999])
                    elif hole:
                        hole, k = hole - 1, 0
                elif style == "rare":
                    k = k if rng.random() < .01 else 0
                rows.append(list(range(fresh, fresh + k)))
                fresh += k
            ops.append({"ev": "many", "given": [list(r) for r in rows]})
            for _ in range(rng.randint(0, 2)):
                ops.append(entry(list(range(fresh, fresh + 2))))
                fresh += 2
        for k in {0, len(rows) - 1, len(rows), min(255, len(rows) - 1), min(256, len(rows) - 1), rng.randrange(len(rows))}:
            ops.append({"ev": "key", "i": k, "how": rng.choice(["values", "mut", "range", "index", "indexmut"])})
        for _ in range(2):
            ks = [k for k, x in enumerate(rows) if x]
            if ks:
                k = rng.choice(ks[-3:])
                ops.append({"ev": "write", "i": k, "j": len(rows[k]) - 1, "x": 7, "how": rng.choice(["iter", "values", "index", "all"])})
                rows[k][-1] = 7
        ops.append({"ev": "views", "lite": 1} if size > 2000 else {"ev": "views"})
        import copy
        er, et = (copy.deepcopy(rows), list(tail))
        if rng.random() < 0.5:
            ks = [k for k, x in enumerate(er) if x]
            if ks:
                er[ks[-1]][-1] += 1
        ops.append({"ev": "eq", "orows": er, "otail": et})
        ops.append({"ev": "clear"})
        case(ops, i // 2)
    return cases


def c06(ctx):
    rng, cases = ctx.rng, []
    for i, p in enumerate(ctx.gen("GenPairs", "GenPairs", env={"KEYS": "4", "LEN": str(ctx.pick(4, 5))})):
        cases.append({"k": "builder", "how": i % 8, "pairs": [[k, j + 1] for j, k in enumerate(p)]})
    for i in range(ctx.pick(600, 8000)):
        n = rng.choice([0, 1, 2, 5, 10, 19, 20, 21, 25, 33, 40, 60, 100]) if rng.random() < 0.95 else 300
        nk = rng.choice([1, 2, 3, 5, 10, 40])
        style = rng.randrange(4)
        ks = [rng.randrange(nk) for _ in range(n)]
        if style == 1:
            ks = [nk - k for k in ks]
        elif style == 2:
            ks.sort(reverse=True)
        elif style == 3:
            ks = [k + rng.choice([0, 0, 0, 17]) for k in ks]
        cases.append({"k": "builder", "how": rng.randrange(8), "pairs": [[k, j + 1] for j, k in enumerate(ks)]})
    for i in range(ctx.pick(60, 600)):  # many pairs, or large keys
        n = rng.choice([1, 3, 255, 256, 257, 1000, 1000]) if i >= 4 else rng.choice([3, 65536, 70000])
        top = rng.choice([3, 254, 255, 256, 257, 300, 1000]) if i >= 4 else rng.choice([0, 5, 65535, 65536, 65537, 70000])
        near = [k for k in (0, 1, 255, 256, top - 1, top) if 0 <= k <= top]
        ks = [rng.choice([rng.choice(near), rng.randint(0, top)]) for _ in range(n)]
        if i == 0:  # more values for one key than 16 bits can count
            n, k = 70000, rng.randint(0, 2)
            ks = [k if rng.random() < .99 else rng.randint(0, 3) for _ in range(n)]
        elif i == 1:  # more keys
            n = 70000
            ks = [rng.randint(0, 70000) for _ in range(n)]
        style = rng.randrange(4)
        if style == 1:
            ks.sort(reverse=True)
        elif style == 2:
            ks.sort()
            a, b = rng.randrange(n), rng.randrange(n)
            ks[a], ks[b] = ks[b], ks[a]
        cases.append({"k": "builder", "how": rng.randrange(8), "pairs": [[k, j + 1] for j, k in enumerate(ks)]})
    return cases


def c07(ctx):
    rng, cases = ctx.rng, []
    for i, h in enumerate(ctx.gen("GenPQ", "GenPQ", env={"DEPTH": str(ctx.pick(6, 8)), "PRIOS": "3"})):
        ins = sum(1 for o in h if o["ev"] == "insert")
        cases.append({"k": "pq", "new": i % 2, "ops": h + [{"ev": "remove"}] * (2 * ins - len(h) + 1)})
    for i in range(ctx.pick(700, 10000)):
        ops, n = [], 0
        spread = rng.choice([1, 2, 3, 10, 1000])
        mode = rng.randrange(4)
        size = rng.choice([5, 10, 20, 40, 80])
        for j in range(size):
            pin = [0.6, 0.9, 0.5, 0.75][mode]
            if rng.random() < pin:
                x = rng.randint(-spread, spread)
                if mode == 1 and rng.random() < 0.5:
                    x = j if i % 2 else -j
                ops.append({"ev": "insert", "x": x})
                n += 1
            elif rng.random() < 0.03:
                ops.append({"ev": "clear"})
                n = 0
            else:
                ops.append({"ev": "remove"})
                n = max(0, n - 1)
        cases.append({"k": "pq", "new": i % 2, "ops": ops + [{"ev": "remove"}] * (n + 1)})
    for i in range(ctx.pick(200, 3000)):
        n = rng.choice([31, 64, 127, 128, 129, 254, 255, 256, 257, 300, 1000]) if i >= 4 else [65537, 5000, 5000, 10000][i]
        spread = rng.choice([1, 5, 100, 10 ** 9])
        m = rng.choice([0, 1, n // 2, n]) if n < 9000 else 1  # PQ checks itself in linear time at every step

        def some(k):
            xs = [rng.randint(-spread, spread) for _ in range(k)]
            r = rng.random()
            if r < 0.2:
                xs.sort()
            elif r < 0.4:
                xs.sort(reverse=True)
            return xs
        bulk = lambda: {"ev": "bulk", "xs": some(n), "ys": some(m), "h": rng.choice([0, 1, n // 2, n - 1, n])}
        cases.append({"k": "pq", "new": i % 2, "ops": [bulk()] + ([bulk(), {"ev": "insert", "x": 3}, {"ev": "remove"}, {"ev": "remove"}] if n < 2000 else [])})
    return cases


def checks(Check):
    return [
        Check("C05", {"module": "TraceRamp", "cfg": "TraceRamp"}, c05, [
            {"module": "RampTable", "cfg": "RampTableAbs"},
            {"module": "RampTableImpl", "cfg": "MCRampTable"},
            {"module": "RampTableImpl", "cfg": "MCRampTableMut", "expect": "violated"}],
            assumptions=["RampTable is generic in its values; they are integers and strings here"]),
        Check("C06", {"module": "TraceRamp", "cfg": "TraceRamp"}, c06, [
            {"module": "BuilderImpl", "cfg": "MCBuilder"},
            {"module": "BuilderImpl", "cfg": "MCBuilderMut", "expect": "violated"}],
            assumptions=["keys up to a few thousand: finish allocates one slot per key up to the largest"]),
        Check("C07", {"module": "TracePQ", "cfg": "TracePQ"}, c07, [
            {"module": "PQ", "cfg": "MCPQ"},
            {"module": "HeapImpl", "cfg": "MCHeap"},
            {"module": "HeapImpl", "cfg": "MCHeapMut", "expect": "violated"}],
            assumptions=["items are compared by priority only, so that equal items can be told apart by the specification"]),
    ]
