"""C28: named values of enumerations, with name tables chosen at run time."""
import os
from concurrent.futures import ThreadPoolExecutor
from drv import enc, Exc
from exp import Exp, run_exps
import doc as D
import values as V

NAMES = ["one", "two", "three", "ON", "on", "On", "o", "off", "light blue", "light", "a", "b", "aa", "ab", "A", "B", "1", "2", "10", "-1", "-x",
         "--long", "x=y", "=", "ä", "日本", "\xff", "'q'", '"dq"', "with,comma", "[br]", "trailing ", " leading", "tab\t", "new\nline",
         "UPPER", "upper", "mixed-Case", "under_score", "%s", "\\", "*", "0", "00", "true", "n" * 200, "n" * 201, "zz", "one two",
         "threeX", "on\x01", "é", "é"]
RANGE = {"a": (-128, 127), "b": (0, 2 ** 64 - 1), "c": (-2 ** 31, 2 ** 31 - 1), "s": (-1000, 1000)}


def table(rng, kind):
    lo, hi = RANGE[kind]
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 10, 25]) if rng.random() < 0.95 else 40
    pool = list(NAMES)
    if rng.random() < 0.15:
        pool.append("")
    names = rng.sample(pool, min(n, len(pool)))
    while len(names) < n:
        x = V.rand_str(rng)
        if x not in names and "\0" not in x:
            names.append(x)
    vals = [rng.choice([lo, hi, 0, 1, 2, 3, rng.randint(lo, hi), max(lo, -1), max(lo, -2), hi - 1]) for _ in range(max(1, n * 2 // 3))]
    return {x: rng.choice(vals) for x in names}


def text_for(rng, t):
    k = rng.random()
    if t and k < 0.45:
        return rng.choice(sorted(t))
    base = rng.choice(sorted(t)) if t else "x"
    return rng.choice([base + "x", base[:-1], base[1:], base.upper(), base.lower(), base.swapcase(), " " + base, base + " ", base + "\0".strip("\0"),
                       base + base, rng.choice(NAMES), V.rand_str(rng), str(t[base]) if t else "0", "<UNKNOWN_VALUE>",
                       base.replace(" ", "  "), base + "\n", "'%s'" % base, "", ", ".join(sorted(t)[:2]), base + ",", "[" + base])


def listing(t, kind):
    """The names as they must be listed, for both separators in use."""
    if kind == "s":
        order = sorted(t, key=lambda x: x.encode("utf-8", "surrogateescape"))
    else:
        order = sorted(t, key=lambda x: (t[x], x.encode("utf-8", "surrogateescape")))
    return ["[" + s.join(order) + "]" for s in (", ", ",")]


def asks(rng, tabs, ctx):
    r = []
    for _ in range(ctx.n(40, 60)):
        kind = rng.choice("abcs")
        t = tabs[kind]
        lst = kind in "as" and rng.random() < 0.3
        n = rng.choice([1, 2, 3, 5]) if lst else 1
        texts = [text_for(rng, t) for _ in range(n)]
        ok = all(x in t for x in texts)
        e = Exp()
        typ = ("L_" if lst else "") + "dyn" + kind
        lo, hi = RANGE[kind]
        init = rng.choice(sorted(t.values())) if t and rng.random() < 0.8 else rng.randint(lo, hi)
        e.slot("s", typ, [str(init)] if not lst else [str(init)] * rng.choice([0, 1, 2]))
        other = "c" if kind != "c" else "a"
        e.slot("o", "dyn" + other, ["1"])
        if lst:
            was = "[" + "e%d," % init * (len(e.lines[0].split(" ")) - 3 if e.lines[0].split(" ")[3:] != ["%"] else 0) + "]"
        else:
            was = "e%d" % init
        form = rng.choice(["long", "short", "long=", "short=", "shortjoined", "pos"])
        if any(x == "" for x in texts) and form in ("long=", "short=", "shortjoined"):
            form = "long"
        if any(x.startswith("=") or x.startswith("-") for x in texts) and form == "shortjoined":
            form = "short"
        av = []
        for x in texts:
            av += {"long": ["--val", x], "short": ["-o", x], "long=": ["--val=" + x], "short=": ["-o=" + x],
                   "shortjoined": ["-o" + x], "pos": [x]}[form]
        if form == "pos":
            av = ["--"] + av
        e.parser("P", ["app"] + av)
        if form == "pos":
            e.add("pos", "P", "s")
        else:
            e.add("opt", "P", "s", "o", "val")
        e.add("opt", "P", "o", "z", "zother")
        p = e.op("parse", "P")
        e.op("val", "s")
        e.tag = kind + (" list" if lst else "") + (" name" if ok else " no name")
        want = ("[" + "".join("e%d," % t.get(x, 0) for x in texts) + "]") if lst else "e%d" % t.get(texts[0], 0)
        lists = listing(t, kind)
        e.note = {"table": t, "texts": texts, "form": form}

        def check(r, ok=ok, want=want, p=p, lists=lists, t=t, texts=texts, was=was, lst=lst):
            o = r.parse_outcome(p)
            if ok:
                if o != "ok":
                    return [("a registered name was rejected", "%r: %r" % (texts, o))]
                if r.values["s"] != want:
                    return [("wrong value", "%r: %s instead of %s" % (texts, r.values["s"], want))]
                return []
            if o == "ok":
                return [("an unregistered text was accepted", "%r -> %s, names %r" % (texts, r.values["s"], sorted(t)))]
            if not isinstance(o, Exc) or o.cls != "sharg::user_input_error":
                return [("wrong error", "%r: %r" % (texts, o))]
            if not any(x in o.what for x in lists):
                return [("names listed wrongly", "%r instead of %r" % (o.what[:600], lists[0][:600]))]
            bad = [x for x in texts if x not in t]
            if not any(x in o.what.replace(lists[0], "", 1) for x in bad):
                return [("rejected text not named", "%r: %r" % (texts, o.what[:300]))]
            if r.values["s"] != was and not lst:
                return [("value changed by a rejected text", r.values["s"])]
            return []
        e.check = check
        r.append(e)
    for _ in range(ctx.n(8, 12)):    # the default on the help page
        kind = rng.choice("abcs")
        t = tabs[kind]
        good = [x for x in t if D.plain(x) == x and x.split() and "\\" not in x and "'" not in x]
        if not good:
            continue
        lst = kind in "as" and rng.random() < 0.3
        vals = [t[rng.choice(good)] for _ in range(rng.choice([1, 2, 3]) if lst else 1)]
        ways = [[x for x in t if t[x] == v] for v in vals]
        if any(x not in good for w in ways for x in w):    # a name that cannot be read back from the page
            continue
        e = Exp(solo=True)
        e.slot("s", ("L_" if lst else "") + "dyn" + kind, [str(v) for v in vals])
        mode = rng.choice(["-h", "-hh", "--export-help=man"])
        e.parser("P", ["app", mode])
        e.add("opt", "P", "s", "o", "val", "mk1x")
        p = e.op("parse", "P")
        e.tag = kind + " default"
        e.note = {"table": t, "default": vals}

        def check(r, ways=ways, lst=lst, p=p, mode=mode):
            if r.parse_outcome(p) != "exit":
                return [("no page", "%r" % (r.parse_outcome(p),))]
            out = " ".join((D.man_text(r.out) if mode.endswith("man") else r.out).split())
            at = out.find("mk1x")
            got = out[at:].split("Default:", 1)[1].strip() if at >= 0 and "Default:" in out[at:] else None
            if got is None:
                return [("no default on the page", out[-300:])]

            def starts(rest, ws):
                """Does rest start with one name of each value?"""
                if not ws:
                    return rest.startswith("]") if lst else True
                rest = rest.lstrip()
                for x in ws[0]:
                    x = " ".join(x.split())
                    if rest.startswith(x):
                        y = rest[len(x):].lstrip() if lst else rest[len(x):]
                        if lst and len(ws) > 1:
                            if not y.startswith(","):
                                continue
                            y = y[1:].lstrip()
                        if not lst and y and not (y[0] in ". " or y.startswith("VERSION")):
                            continue
                        if starts(y, ws[1:]):
                            return True
                return False
            if lst and not got.startswith("["):
                return [("default shown wrongly", got[:200])]
            if not starts(got[1:] if lst else got, ways):
                return [("default shown wrongly", "%r instead of one of %r" % (got[:200], ways))]
            return []
        e.check = check
        r.append(e)
    return r


def main(ctx):
    ctx.rule = ("random name tables (empty to 40 names, several names per value, odd bytes, names that are prefixes or case"
                " variants of each other, extreme values, not NUL-terminated) for four types (scoped, unscoped, customised"
                " from outside, without order), read by the program when it starts; registered names and texts close to"
                " them in every spelling; lists; error messages; help pages; non-trivial: every question")
    ctx.build("debug", groups=[0, 4, 6])
    rng = ctx.rng
    jobs = []
    for i in range(ctx.n(220, 4000)):
        tabs = {k: table(rng, k) for k in "abcs"}
        f = os.path.join(ctx.tmp, "table%d" % i)
        with open(f, "w") as o:
            for k, t in tabs.items():
                for x in rng.sample(sorted(t), len(t)):
                    o.write("%s %s %d\n" % (k, enc(x), t[x] % 2 ** 64))
        jobs.append((f, asks(rng, tabs, ctx)))
        ctx.count("tables", 4)

    def work(j):
        return list(run_exps(ctx.drivers["debug"], j[1], pack=40, jobs=1, env={"DRV_TABLE": j[0]}))
    with ThreadPoolExecutor(8) as ex:
        for pairs in ex.map(work, jobs):
            for e, r in pairs:
                ctx.observe(e)
                ctx.judge(e, r, "debug")
    # the tables compiled into the program
    exps = []
    for name, t in V.ENUMS.items():
        for _ in range(ctx.n(150, 1500)):
            x = rng.choice(sorted(t)) if rng.random() < 0.5 else text_for(rng, t)
            e = Exp()
            e.slot("s", name, [str(sorted(t.values())[0])])
            e.parser("P", ["app", "--val", x])
            e.add("opt", "P", "s", "o", "val")
            p = e.op("parse", "P")
            e.tag = "fixed table " + ("name" if x in t else "no name")
            lists = listing(t, "a")

            def check(r, x=x, t=t, p=p, lists=lists):
                o = r.parse_outcome(p)
                if x in t:
                    return [] if o == "ok" and r.values["s"] == "e%d" % t[x] else [("a registered name was rejected", "%r" % (o,))]
                if not isinstance(o, Exc) or o.cls != "sharg::user_input_error" or not any(y in o.what for y in lists):
                    return [("names listed wrongly", "%r" % (o,))]
                return []
            e.check = check
            exps.append(e)
    ctx.run(exps)
