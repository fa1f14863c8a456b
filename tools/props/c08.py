"""C08: a value is accepted exactly if its validators accept it; chains run left to right and stop at a rejection."""
from exp import Exp, Exc
from drv import enc
import rx
import spec as S
import values as V

KINDS = ["validation", "runtime", "logic", "badalloc", "user", "design"]


def num(c):
    """number of a canonical value"""
    return c[1] if isinstance(c, tuple) else int(c[1:])


def mixed(rng, t):
    """A range or list of another number type than the value's: the value itself decides, not its conversion."""
    v = rng.choice([x for x in ["i32", "i32", "u32", "i64", "u64", "u8", "i16"] + (["f64"] if t in V.INT else []) if x != t])
    vlo, vhi = V.INT.get(v, (-100, 100))

    def bound():
        if v in V.INT and t in V.INT and rng.random() < 0.3:
            return V.rand_int(rng, vlo, vhi)
        return max(vlo, min(vhi, rng.randint(-30, 30))) + (rng.choice([0, 0.5]) if v == "f64" else 0)
    n = rng.choice([1, 2, 4])
    kind = rng.choice(["xrange", "xlist"])
    vals = sorted(bound() for _ in range(2)) if kind == "xrange" else [bound() for _ in range(n)]
    hints = []
    for b in vals:
        hints += [b, b + 1, b - 1]
        if t in V.INT:
            hints += [b + s * 2 ** w for s in (1, -1) for w in (8, 16, 32, 64)]
        else:
            hints += [b + 0.25, b - 0.5]
    hints = [h for h in hints if t in V.FLT or V.INT[t][0] <= h <= V.INT[t][1]] or [0]
    f = "%s,%s,%s" % (kind, v, ",".join(enc(repr(b)) for b in vals))
    if kind == "xlist" and rng.random() < 0.05:
        return "xlist,%s" % v, (lambda x: False), hints
    if kind == "xrange":
        return f, (lambda x: vals[0] <= num(x[1]) <= vals[1]), hints
    return f, (lambda x: num(x[1]) in vals), hints


def link(rng, t, idx):
    """(encoded link, accepts(list of (text, canonical))) for element type t; kinds other than probes."""
    k = rng.random()
    if t in V.INT and k < 0.15 or t in V.FLT and k < 0.2:
        return mixed(rng, t)
    if t == "path":
        if k < 0.6:
            p, text = rx.pattern(rng)
            if rng.random() < 0.5:      # of a path with directories
                p, text = p + "/" + p, (lambda text=text: text() + rng.choice(["/", "/", "//", "/x/"]) + text())
            return "regex," + enc(p), (lambda x: rx.full(p, x[0])), text
        pool = ["a", "a/b", "b/a", "a/a", "/a", "a/", "dir/data.tsv", "data.tsv", "x y/z", "."]
        ws = rng.sample(pool, rng.choice([1, 1, 2, 4]))
        return ("list1," if len(ws) == 1 else "listn,") + ",".join(enc(w) for w in ws), (lambda x: x[0] in ws), \
            (lambda: rng.choice(ws + pool))
    if t in V.INT and k < 0.5:
        lo, hi = sorted((V.rand_int(rng, *V.INT[t]), V.rand_int(rng, *V.INT[t])))
        if rng.random() < 0.5:
            c = V.rand_int(rng, *V.INT[t])
            lo, hi = max(V.INT[t][0], c - rng.randint(0, 3)), min(V.INT[t][1], c + rng.randint(0, 3))
        return "range,%d,%d" % (lo, hi), (lambda x: lo <= num(x[1]) <= hi), [lo, hi, lo - 1, hi + 1, (lo + hi) // 2]
    if t in V.FLT and k < 0.5:
        lo, hi = sorted(rng.choice([-8.5, -1, -0.25, 0, 0.5, 1, 2.75, 10, 1e6]) for _ in range(2))
        c = [lo, hi, lo - 0.25, hi + 0.25, (lo + hi) / 2]
        return "range,%s,%s" % (enc(repr(lo)), enc(repr(hi))), (lambda x: lo <= num(x[1]) <= hi), c
    if t == "str" and k < 0.5:
        p, text = rx.pattern(rng)
        return "regex," + enc(p), (lambda x: rx.full(p, x[0])), text
    n = rng.choice([1, 2, 3, 6])
    if rng.random() < 0.05:
        return "list", (lambda x: False), None     # an empty list accepts nothing
    vals = [V.rand_init(rng, t) for _ in range(n)]
    vals = [v for v in vals if v[0][0].isascii()] or [(["foo"], "sfoo")]    # patterns match bytes here, characters there
    return ("list," + ",".join(enc(v[0][0]) for v in vals)), (lambda x: x[1] in [v[1] for v in vals]), vals


def candidate(rng, t, hints):
    """A text of type t near the borders of the validators."""
    if hints and rng.random() < 0.75:
        h = rng.choice(hints)
        if callable(h):
            s = h()
            return s
        h = rng.choice(h)
        if isinstance(h, tuple):     # member of a value list
            if t in V.ENUMS:
                return rng.choice([n for n, v in V.ENUMS[t].items() if "e%d" % v == h[1]])
            return h[0][0]
        if t in V.INT:
            return str(max(V.INT[t][0], min(V.INT[t][1], int(h))))
        if t in V.FLT:
            return "%.6f" % h
    while True:
        s = V.rand_text(rng, t)
        if "\n" not in s and len(s) < 200 and all(0 < ord(c) < 128 for c in s):
            return s


def one(rng):
    e = Exp()
    lt = rng.choice(["i32", "u8", "i64", "u64", "f64", "f32", "str", "str", "str", "color", "i16", "bool", "path",
                     "L_i32", "L_str", "L_str", "L_u8", "L_f64", "L_color", "D_str", "LL_i32",
                     "path", "L_path", "L_u64", "u32"])
    t = V.elem(lt)
    ischeck = t != "bool"
    links, acc, hints = [], [], []
    n = rng.choice([1, 1, 2, 2, 3, 4])
    for k in range(n):
        if not ischeck or rng.random() < 0.45:
            what = rng.choice(KINDS) if rng.random() < 0.2 else "ok"
            links.append("probe,@ID@.p%d,%s" % (k, what))
            acc.append(what)
        else:
            l, a, h = link(rng, t, k)
            links.append(l)
            acc.append(a)
            if h is not None:
                hints.append(h)
    pos = rng.random() < 0.3
    cnt = rng.randint(1, 4) if lt != t else 1
    texts = [candidate(rng, t, hints) for _ in range(cnt)]
    if lt != t and rng.random() < 0.12:    # many values, most of them (or all) acceptable
        good = [c for c in (candidate(rng, t, hints) for _ in range(60))
                if all(isinstance(a, str) or a((c, V.expect(c, t))) for a in acc)]
        if good:
            texts = [rng.choice(good) for _ in range(rng.randint(15, 60))]
            if rng.random() < 0.6:
                texts[rng.choice([-1, -2, rng.randrange(len(texts))])] = candidate(rng, t, hints)
    given = pos or rng.random() < 0.85
    init, ival = V.rand_init(rng, lt)
    e.slot("v", lt, init)
    e.slot("f", "bool", ["0"])
    av = ["app", "-f"]
    if given:
        if pos:
            av += ["--"] + texts
        else:
            for x in texts:
                av += rng.choice([["-o", x], ["--opt", x]] if not x else [["-o", x], ["--opt", x], ["--opt=" + x]])
    e.parser("P", av)
    e.add("flag", "P", "f", "f")
    if pos:
        e.add("pos", "P", "v", vali="|".join(links))
    else:
        e.add("opt", "P", "v", "o", "opt", vali="|".join(links),
              flags=rng.choice(["-", "-", "-", "a", "h", "ah"] + (["r", "r"] if given else [])))
    i = e.op("parse", "P")
    vals = [(x, V.expect(x, t)) for x in texts]
    want_probes, reject = [], None
    if given:
        dump = None
        for k, a in enumerate(acc):
            if isinstance(a, str):
                want_probes.append("p%d" % k)
                if a != "ok":
                    reject = a
                    break
            elif not all(a(x) for x in vals):
                reject = "builtin"
                break
    final = (tuple(v for _, v in vals) if lt != t else vals[0][1]) if given else ival
    e.note = {"links": links, "argv": av, "reject": reject, "probes": want_probes}
    e.tag = ("rejected by " + reject) if reject else "accepted" if given else "not given"

    def check(r):
        o = r.parse_outcome(i)
        bad = []
        got = [p[0] for p in r.probes]
        if got != want_probes:
            bad.append(("validator calls", "expected %r got %r" % (want_probes, got)))
        for _, d in r.probes:
            c = V.canon("[" + d + "]") if lt != t else V.canon(d)
            if c != final:
                bad.append(("validator saw another value", "%r instead of %r" % (c, final)))
        if reject:
            if not isinstance(o, Exc):
                bad.append(("rejected value accepted (%s)" % reject, "%r" % (o,)))
            elif o.cls != "sharg::validation_error":
                bad.append(("rejection is no validation error (%s)" % reject, "%r" % (o,)))
        else:
            if o != "ok":
                bad.append(("accepted value rejected", "%r" % (o,)))
            elif V.canon(r.values["v"]) != final:
                bad.append(("wrong value", "%r instead of %r" % (r.values["v"], final)))
        return bad
    e.check = check
    return e


def direct(rng):
    """Calls the validators themselves."""
    e = Exp()
    lt = rng.choice(["i32", "u8", "f64", "str", "str", "color", "L_i32", "L_str", "L_u8", "path", "L_path", "i64", "L_u64"])
    t = V.elem(lt)
    l, a, h = link(rng, t, 0)
    xs = [candidate(rng, t, [h] if h is not None else []) for _ in range(rng.randint(0, 4) if lt != t else 1)]
    init = [str(V.ENUMS[t][x]) if t in V.ENUMS else x for x in xs]
    e.slot("v", lt, init)
    i = e.op("vali", "v", l)
    ok = all(a((x, V.expect(x, t))) for x in xs)
    e.note = {"link": l, "values": xs, "accept": ok}
    e.tag = "direct call, " + ("accept" if ok else "reject")

    def check(r):
        o = r.ops.get(i)
        if ok and isinstance(o, Exc):
            return [("validator rejects a valid value", "%r" % (o,))]
        if not ok and (not isinstance(o, Exc) or o.cls != "sharg::validation_error"):
            return [("validator accepts an invalid value", "%r" % (o,))]
        return []
    e.check = check
    return e


def several(rng):
    """Several options with probes: only the given ones are validated, each once."""
    e = Exp()
    n = rng.randint(2, 6)
    av = ["app"]
    want = []
    for k in range(n):
        lt = rng.choice(["str", "i32", "L_i32", "L_str"])
        init, _ = V.rand_init(rng, lt)
        e.slot("v%d" % k, lt, init)
        given = rng.random() < 0.5
        for _ in range(rng.randint(1, 3) if lt[0] == "L" and given else int(given)):
            av += ["--opt%d" % k, V.rand_text(rng, V.elem(lt))]
        if given:
            want += ["o%d" % k, "q%d" % k]
    av.append("--flag")
    e.slot("f", "bool", ["0"])
    e.parser("P", av)
    e.add("flag", "P", "f", "", "flag")
    for k in range(n):
        e.add("opt", "P", "v%d" % k, "", "opt%d" % k, vali="probe,@ID@.o%d,ok|probe,@ID@.q%d,ok" % (k, k))
    i = e.op("parse", "P")
    e.tag = "several options"

    def check(r):
        got = [p[0] for p in r.probes]
        o = r.parse_outcome(i)
        if o != "ok":
            return [("valid line rejected", "%r" % (o,))]
        if sorted(got) != sorted(want):
            return [("validators run for other options", "%r instead of %r" % (got, want))]
        for k in range(n):
            if "o%d" % k in got and got.index("o%d" % k) > got.index("q%d" % k):
                return [("validators run in wrong order", "%r" % (got,))]
        return []
    e.check = check
    return e


def nonfinite(rng):
    """Texts that are no finite number never lie in a closed interval of finite numbers."""
    e = Exp()
    lt = rng.choice(["f32", "f64", "ld", "L_f64"])
    lo, hi = sorted(rng.choice([-1e30, -8.5, -1, 0, 0.5, 1, 2.75, 10, 1e30]) for _ in range(2))
    link = "range,%s,%s" % (enc(repr(lo)), enc(repr(hi)))
    text = rng.choice(["nan", "-nan", "NaN", "nan(1)", "inf", "-inf", "infinity", "INF"])
    e.slot("v", lt, ["0.5"])
    how = rng.choice(["direct", "option", "positional"])
    if lt == "L_f64":   # among values that lie in the interval
        good = [repr(x) for x in (lo, hi, (lo + hi) / 2)]
        texts = [rng.choice(good) for _ in range(rng.choice([0, 1, 2, 4]))]
        texts.insert(rng.randint(0, len(texts)), text if how != "direct" or "(" not in text else "nan")
    else:
        texts = [text]
    if how == "direct":
        e.lines = []
        e.slot("v", lt, texts if "(" not in text else [t if "(" not in t else "nan" for t in texts])
        i = e.op("vali", "v", link)
    else:
        e.parser("P", ["app"] + [x for t in texts for x in ("-o", t)] if how == "option" else ["app", "--"] + texts)
        if how == "option":
            e.add("opt", "P", "v", "o", "opt", vali=link)
        else:
            e.add("pos", "P", "v", vali=link)
        i = e.op("parse", "P")
    e.note = {"texts": texts, "link": link}
    e.tag = "no finite number, " + how

    def check(r):
        o = r.ops.get(i) if how == "direct" else r.parse_outcome(i)
        if not isinstance(o, Exc) or o.cls not in ("sharg::validation_error", "sharg::user_input_error"):
            return [("value that is no finite number accepted in a range", "%s in %s: %r" % (texts, link, o))]
        return []
    e.check = check
    return e


def nul(rng):
    """A value with a NUL character (through the constructor taking strings) is more than its first part."""
    e = Exp()
    lt = rng.choice(["str", "L_str", "D_str"])
    word = rng.choice(["foo", "b", "a b", "x" * 20])
    text = rng.choice([word + "\0", word + "\0x", "\0" + word, word + "\0" + word, "\0"])
    link = rng.choice(["list," + enc(word) + ",z", "regex," + enc("(%s|z)" % word), "regex," + enc("[a-z ]*")])
    e.slot("v", lt, ["z"])
    how = rng.choice([["-o", text], ["-o=" + text], ["--opt=" + text], ["--", text]])
    e.parser("P", ["app"] + how)
    if how[0] == "--":
        e.add("pos", "P", "v", vali=link)
    else:
        e.add("opt", "P", "v", "o", "opt", vali=link)
    i = e.op("parse", "P")
    e.note = {"argv": how, "link": link}
    e.tag = "NUL character"

    def check(r):
        o = r.parse_outcome(i)
        if not isinstance(o, Exc) or not o.cls.startswith("sharg::"):
            return [("value with a NUL character accepted", "%r by %s: %r" % (text, link, o))]
        return []
    e.check = check
    return e


def main(ctx):
    ctx.rule = ("chains of 1..4 validators (recording probes that accept or throw one of six exception types; range, value"
                " list and pattern validators) on options, lists and positionals with values at the borders; direct calls;"
                " several options at once. Acceptance computed with exact numbers and an independent pattern matcher;"
                " non-trivial: a value was given")
    ctx.build("debug")
    rng = ctx.rng
    exps = [one(rng) for _ in range(ctx.n(8000, 120000))]
    exps += [direct(rng) for _ in range(ctx.n(2000, 30000))]
    exps += [several(rng) for _ in range(ctx.n(1000, 10000))]
    exps += [nul(rng) for _ in range(ctx.n(300, 1500))]
    exps += [nonfinite(rng) for _ in range(ctx.n(400, 2000))]
    ctx.run(exps)
    ctx.assumptions.append("std::regex and Python's re agree on the restricted pattern grammar of tools/rx.py")
