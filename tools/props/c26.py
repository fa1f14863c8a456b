"""C26: a moved parser behaves like the unmoved one; destruction is safe at any time (metamorphic, under ASan)."""
from drv import enc
from exp import Exp, Exc
import progs

PARSER_OPS = {"opt", "pos", "flag", "info", "section", "subsection", "line", "item", "subcmds", "parse", "issetc", "issets",
              "sub"}


def victim(m, rng, k, slots):
    """A parser to be overwritten by an assignment, in some state of its life."""
    t = "T%d" % k
    s1, s2 = "t%da" % k, "t%db" % k
    m.slot(s1, "str", ["a"])
    m.slot(s2, "L_i32", [])
    m.parser(t, ["app"] + rng.choice([["x"], ["-o", "x"], ["sub", "x"], ["--bad"], []]), app=rng.choice(["app", "other"]),
             subs=["sub"] if rng.random() < 0.4 else ())
    stage = rng.choice([0, 1, 2, 3])
    if stage >= 1:
        m.add("opt", t, s1, rng.choice("oxy"), "opt-t", "d")
        m.op("section", t, enc("T section"), 0)
    if stage >= 2:
        m.add("opt", t, s2, "l", "list-t", "d")
    if stage >= 3 and not m.lines[-1].endswith(" app"):
        if not any(l.startswith("parser T%d" % k) and l.split(" ")[-1] == "app" for l in m.lines):
            m.op("parse", t)
    return t


def moved(rng, e, ctx):
    """The same program with moves, assignments and destructions; (program, map of the operations)."""
    m = Exp(solo=e.solo)
    cur = {}
    where = {}
    left = []        # moved-from objects
    held = set()     # objects that own a sub-parser in use: never destroyed early
    k = 0
    density = rng.choice([0.05, 0.2, 0.5])
    for i, l in enumerate(e.lines):
        t = l.split(" ")
        if t[0] in PARSER_OPS and t[1] in cur:
            t[1] = cur[t[1]]
        where[i] = m.op(*t)
        if t[0] in ("parser", "cparser"):
            cur[t[1]] = t[1]
        elif t[0] == "sub":
            cur[t[2]] = t[2]
        while cur and rng.random() < density:
            k += 1
            n = rng.choice(sorted(cur))
            r = rng.random()
            if r < 0.45:
                dele = rng.random() < 0.5
                m.op("move", cur[n], "M%d" % k, *(["del"] if dele else []))
                if not dele:
                    left.append(cur[n])
                cur[n] = "M%d" % k
                ctx.count("move construction" + (", source destroyed" if dele else ""))
            elif r < 0.75:
                v = victim(m, rng, k, None)
                dele = rng.random() < 0.5
                m.op("assign", cur[n], v, *(["del"] if dele else []))
                if not dele:
                    left.append(cur[n])
                cur[n] = v
                ctx.count("assignment" + (", source destroyed" if dele else ""))
            elif r < 0.88 and left:
                v = left.pop(rng.randrange(len(left)))
                if v.startswith("Q"):   # lives inside another parser
                    continue
                m.op("assign", cur[n], v)
                left.append(cur[n])
                cur[n] = v
                ctx.count("assignment to a moved-from parser")
            elif left:
                m.op("del", left.pop(rng.randrange(len(left))))
                ctx.count("moved-from parser destroyed")
    if rng.random() < 0.5:
        for l in e.lines:
            t = l.split(" ")
            if t[0] == "slot":
                m.op("val", t[1])
                where.setdefault("val", {})[t[1]] = len(m.lines) - 1
        for l in e.lines:
            t = l.split(" ")
            if t[0] == "slot":
                m.op(*t)
        m.reslot = True
        ends = sorted(set(cur.values())) + left
        rng.shuffle(ends)
        for x in ends:
            m.op("del", x)
    else:
        m.reslot = False
    m.parsers = list(dict.fromkeys(e.parsers + [l.split(" ")[1] for l in m.lines if l.startswith("parser T")]
                                   + ["M%d" % j for j in range(1, k + 1)]))
    return m, where


def seen(x):
    return (x.cls, x.base, x.what) if isinstance(x, Exc) else x


def main(ctx):
    ctx.rule = ("random complete programs (all kinds of declarations, valid and invalid lines, pages, one and two levels of"
                " subcommands, queries) and the same program with moves, assignments over parsers in any state, and"
                " destructions inserted at random points; results, values, output and exit status must be equal, without any"
                " AddressSanitizer report; non-trivial: at least one insertion")
    ctx.build("debug")
    rng = ctx.rng
    exps = []
    for _ in range(ctx.n(2500, 40000)):
        e = progs.rand_program(rng)
        if e.tag.startswith("page"):
            e.solo = True
        base = {}
        variants = []
        for _ in range(2):
            m, where = moved(rng, e, ctx)
            if len(m.lines) > len(e.lines):
                variants.append((m, where))
        if not variants:
            continue

        def first(r, base=base, e=e):
            base["r"] = r
            ctx.count("ends with exit" if r.exit_code == 0 else "runs to its end")
            return []
        e.check = first
        exps.append(e)
        for m, where in variants:
            m.tag = "moved: " + e.tag
            m.note = {"program": e.lines}

            def check(r, base=base, e=e, m=m, where=where):
                a = base["r"]
                bad = []
                if a.exit_code != r.exit_code or (a.status[0] != r.status[0]):
                    return [("exit status differs", "%r instead of %r" % (r.status, a.status))]
                for i, x in a.ops.items():
                    if e.lines[i].startswith("val ") or i not in where:
                        continue
                    y = r.ops.get(where[i])
                    if seen(x) != seen(y):
                        bad.append(("result differs: " + e.lines[i].split(" ")[0], "%s: %r instead of %r" % (e.lines[i][:80], y, x)))
                        break
                if len([i for i in r.ops if i in set(v for k, v in where.items() if k != "val")]) != len(a.ops):
                    bad.append(("other operations were reached", "%d" % len(r.ops)))
                if a.exit_code == 0:
                    va, vr = a.exit_values, {k: r.exit_values.get(k) for k in a.exit_values}
                elif m.reslot:
                    va, vr = a.values, {k: r.ops.get(where["val"][k]) for k in a.values}
                else:
                    va, vr = a.values, {k: r.values.get(k) for k in a.values}
                if va != vr:
                    bad.append(("values differ", "%r" % [(k, va[k], vr[k]) for k in va if va[k] != vr[k]][:3]))
                if a.out != r.out or a.err != r.err:
                    bad.append(("output differs", "%r instead of %r" % ((r.out + r.err)[:300], (a.out + a.err)[:300])))
                if a.probes != r.probes:
                    bad.append(("validator calls differ", "%r instead of %r" % (r.probes, a.probes)))
                return bad[:2]
            m.check = check
            exps.append(m)
    ctx.run(exps)
