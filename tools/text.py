"""Cases for the lexer (C26, C27)."""

SPACE = [9, 10, 11, 12, 13, 32, 133, 160, 5760, 8192, 8195, 8202, 8232, 8233, 8239, 8287, 12288]
NOSPACE = [8, 14, 27, 31, 127, 132, 134, 159, 161, 8191, 8203, 8231, 8288, 0xFEFF, 0x180E, 0x200D, 0x3001]
ODD = [0, 39, 64, 35, 47, 58, 60, 62, 94, 96, 124, 126, 0xE9, 0xDF, 0x3B1, 0x660, 0x0966, 0x4E2D, 0xFFFD, 0x1F600, 0x10FFFF, 0x1D7D8, 0xAA]
EDGE = ["9223372036854775807", "9223372036854775808", "9223372036854775806", "18446744073709551615", "99999999999999999999",
        "00009223372036854775807", "0", "00", "007", "1000000000000000000", "9223372036854775799", "9300000000000000000",
        "4294967296", "2147483648"]
W = lambda s: [ord(c) for c in s]


def piece(rng):
    r = rng.random()
    d = lambda k: "".join(rng.choice("0123456789") for _ in range(rng.randint(1, k)))
    if r < .12:
        return W(rng.choice("{}[]=,;"))
    if r < .18:
        return W("->")
    if r < .32:
        a = "abcxyzntrABCXYZ_"
        return W(rng.choice(a) + "".join(rng.choice(a + "0123456789") for _ in range(rng.choice([0, 1, 3, 8]))))
    if r < .42:
        return W(d(rng.choice([1, 3, 18, 20])))
    if r < .45:
        return W(rng.choice(EDGE))
    if r < .52:
        return W(d(rng.choice([1, 2, 7])) + "." + d(rng.choice([1, 3, 7])))
    if r < .55:
        return W(rng.choice(["1.", "1..2", "1.2.3", "1.2.3.4", "1.2.", ".5", "1.a", "0.10", "3.14159265358979323846", "0.1", "123456789.125",
                             "0.000001", "1e5", "1.5e3", "12345678901234567890.5", "0.30000000000000004", d(30) + "." + d(20),
                             "0." + "0" * 30 + d(10), "9" * 40 + ".0", "1.2x", "5-6", "5->6", "08.80"]))
    if r < .75:
        body = []
        for _ in range(rng.choice([0, 1, 2, 5, 10])):
            q = rng.random()
            if q < .3:
                body += [92, rng.choice([110, 116, 114, 92, 34, 10, 97, 48, 120, 0x4E2D, 32])]
            elif q < .5:
                body.append(rng.choice([10, 32, 13, 9, 45, 62, 123, 0xE9, 0x1F600, 0xFEFF]))
            else:
                body.append(rng.choice(W("abcntr019._->=")))
        return [34] + body + [34]
    return [rng.choice(SPACE)] * rng.choice([1, 1, 2])


def bad(rng):
    r = rng.random()
    if r < .3:
        return [rng.choice(ODD)]
    if r < .5:
        return [rng.choice(NOSPACE)]
    if r < .6:
        return [45]
    if r < .7:
        return [34]
    if r < .8:
        return W(rng.choice(["99999999999999999999", "9223372036854775808", "1.2.3", "1.2.3.4"]))
    if r < .9:
        return W(rng.choice(["\"abc\\", "\"", "\"\\\"", "\"a\nb\nc", "\\", "."]))
    return [rng.choice([10, 13])]


def doc(rng):
    """A document in the dot language."""
    name = lambda: rng.choice([W("a%d" % rng.randint(0, 99)), [34] + W("n %d" % rng.randint(0, 9)) + [34], W(str(rng.randint(0, 999)))])
    t = W("digraph ") + name() + W(" {\n")
    for _ in range(rng.randint(1, 8)):
        t += [9] + name()
        if rng.random() < .5:
            t += W(" -> ") + name()
        if rng.random() < .5:
            t += W(" [") + W(rng.choice(["label", "sides", "skew"])) + W("=") + rng.choice([name(), W("%d.%d" % (rng.randint(0, 9), rng.randint(0, 999)))]) + W(" ]")
        t += W(";") + rng.choice([[10], [13, 10], [32]])
    return t + W("}\n")


def long_piece(rng, n):
    """One token (or white space) of about n characters."""
    digits = lambda k: [rng.choice(W("0123456789")) for _ in range(k)]
    k = rng.randrange(9)
    if k == 0:
        return W("a") + [rng.choice(W("abzAZ019_")) for _ in range(n - 1)]
    if k == 1:
        return [34] + [rng.choice(W("ab 19->=") + [10, 0x4E2D]) for _ in range(n)] + [34]
    if k == 2:  # escapes
        b = []
        while len(b) < n:
            b += [92, rng.choice([110, 116, 114, 92, 34, 97])] if rng.random() < .5 else [97]
        return [34] + b + [34]
    if k == 3:
        return [48] * (n - 1) + [rng.choice(W("0123456789"))]
    if k == 4:
        return W("1") + digits(min(n, 290) - 1) + W(".") + digits(rng.choice([1, n]))
    if k == 5:
        return digits(rng.choice([1, 3])) + W(".") + digits(n)
    if k == 6:
        return [rng.choice(SPACE) for _ in range(n)]
    if k == 7:
        return [10] * n
    return [34] + [92] * (n - n % 2) + [34]


def long_texts(ctx, errors):
    rng, texts = ctx.rng, []
    for i in range(ctx.pick(150, 2000)):
        n = rng.choice([254, 255, 256, 257, 258, 300, 1000] if i >= 12 else [65534, 65535, 65536, 65537])
        p = long_piece(rng, n)
        while n > 60000 and p[:3] == [34, 92, 92]:
            p = long_piece(rng, n)  # a long run of escapes is costly to specify
        t = piece(rng) + [32] + p + [32] + (bad(rng) if errors else piece(rng)) + [10] + piece(rng)
        if errors and rng.random() < .3:
            t += [34] + W("open ended")
        texts.append(t)
    for i in range(ctx.pick(10, 150)):  # many tokens, many errors, many lines
        t = []
        for _ in range(rng.choice([255, 256, 257, 300])):
            t += rng.choice([W("a"), W("{"), W("1"), W("->"), [64] if errors else W(";"), [0xE9] if errors else W("=")]) + [rng.choice([32, 10])]
        texts.append(t)
    return texts


def cases_for(ctx, errors):
    rng, texts = ctx.rng, []
    n = ctx.pick(4, 5)
    for ab, k in (("strings", n), ("numbers", n), ("mix", n - 1)):
        texts += ctx.gen("GenText", "GenText", env={"LEN": str(k), "AB": ab}, workers=4, limit=ctx.pick(1500, 20000))
    for i in range(0, 0x3100 if ctx.thorough else 0x300):  # every character by itself, and next to others
        texts.append([i, 97, i, 49, i, 34, i, 34, i])
    for i in SPACE + NOSPACE + ODD:
        texts.append([97, i, 98, 10, i, 49, i])
    for _ in range(ctx.pick(4000, 60000)):
        t = []
        p = rng.choice([0, .02, .1]) if not errors else rng.choice([.05, .2, .5])
        for _ in range(rng.choice([1, 2, 4, 8, 16])):
            t += bad(rng) if rng.random() < p else piece(rng)
            if rng.random() < .5:
                t.append(rng.choice(SPACE))
        texts.append(t)
    for _ in range(ctx.pick(100, 1500)):
        t = doc(rng)
        if errors:
            for _ in range(rng.randint(1, 3)):
                i = rng.randint(0, len(t))
                if rng.random() < .7:
                    t[i:i] = bad(rng)
                else:
                    del t[i:i + rng.randint(1, 3)]
        texts.append(t)
    texts = long_texts(ctx, errors) + texts
    return [{"k": "lex", "text": t} for t in texts]


def checks(Check):
    def ck(pid, mode, errors):
        m = lambda c, **kw: dict(module="LexerImpl", cfg=c, **kw)
        return Check(pid, {"module": "TraceLexer", "cfg": "TraceLexer", "env": {"MODE": mode}}, lambda ctx: cases_for(ctx, errors),
                     [m("MCLexer"), m("MCLexerSame"), m("MCLexerDeep", tiers=("thorough",), workers=8)]
                     + [m("MCLexerMut" + x, expect="violated") for x in ("", "2", "3")], limit_s=20)
    return [ck("C26", "tokens", False), ck("C27", "errors", True)]
