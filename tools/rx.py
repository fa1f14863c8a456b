"""Random simple patterns with the same meaning in ECMAScript and Python, and texts that (nearly) match them."""
import re


def lit(rng):
    c = rng.choice("abcXYZ019_ -/:")
    return c, [c]


ESC = ".+*?()[]{}^$|\\"


def piece(rng, depth=0):
    """(pattern, sampler)"""
    k = rng.random()
    if k < 0.35:
        s = "".join(rng.choice("abcXYZ019_ -/:") for _ in range(rng.randint(1, 4)))
        p, f = s, (lambda s=s: s)
        if len(s) > 1:
            return p, f
    elif k < 0.45:
        c = rng.choice(ESC)
        p, f = "\\" + c, (lambda c=c: c)
    elif k < 0.6:
        cl = rng.choice(["a-c", "0-9", "A-Z", "abc_", "a-zA-Z", "^a-c"])
        pool = {"a-c": "abc", "0-9": "0123456789", "A-Z": "AMZ", "abc_": "abc_", "a-zA-Z": "aqZ", "^a-c": "xyz9"}[cl]
        p, f = "[" + cl + "]", (lambda pool=pool: rng.choice(pool))
    elif k < 0.7:
        p, f = ".", (lambda: rng.choice("a.Z9 -"))
    elif depth < 2:
        alts = [seq(rng, depth + 1) for _ in range(rng.randint(1, 3))]
        p = "(" + "|".join(a[0] for a in alts) + ")"
        f = lambda alts=alts: rng.choice(alts)[1]()  # noqa
    else:
        p, f = "q", (lambda: "q")
    q = rng.choice(["", "", "", "*", "+", "?", "{2}", "{1,3}"] if depth == 0 else ["", "", "", "?", "{2}"])
    if p[0] == "(" and q in ("*", "+") and "?" in p:
        q = "?"  # no exponential backtracking, in either engine
    lo, hi = {"": (1, 1), "*": (0, 4), "+": (1, 4), "?": (0, 1), "{2}": (2, 2), "{1,3}": (1, 3)}[q]
    return p + q, (lambda: "".join(f() for _ in range(rng.randint(lo, hi))))


def seq(rng, depth=0):
    ps = [piece(rng, depth) for _ in range(rng.randint(1, 3))]
    return "".join(p[0] for p in ps), (lambda: "".join(p[1]() for p in ps))


def pattern(rng):
    """(pattern, text sampler: half of the texts match)"""
    p, f = seq(rng)
    if rng.random() < 0.2:
        p2, f2 = seq(rng)
        p, f1 = p + "|" + p2, f
        f = lambda: rng.choice([f1, f2])()  # noqa

    def text():
        t = f()
        k = rng.random()
        if k < 0.5:
            return t
        if k < 0.62:
            return t + rng.choice(["x", "a", " ", "0", t or "z"])
        if k < 0.74:
            return rng.choice(["x", "a", " ", "0", "-"]) + t
        if k < 0.84:
            return t[:-1]
        if k < 0.92 and t:
            i = rng.randrange(len(t))
            return t[:i] + rng.choice("aZ0 .") + t[i + 1:]
        return t.swapcase()
    return p, text


def full(p, t):
    return re.fullmatch(p, t) is not None
