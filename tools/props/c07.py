"""C07: flag clusters equal separate flags."""
from exp import Exp, Exc
from drv import enc
import spec as S
import values as V


def main(ctx):
    ctx.rule = ("1..9 flags (short, long or both) next to options and positionals; the given flags split into clusters in"
                " random order; a third of the lines with an undeclared letter in a cluster; after-terminator decoys;"
                " non-trivial: at least one flag given")
    ctx.build("debug", groups=[0])
    rng = ctx.rng
    exps = []
    for _ in range(ctx.n(9000, 120000)):
        used = set([""])
        sp = S.rand_spec(rng, n_opt=rng.choice([0, 0, 1, 2]), n_flag=rng.randint(1, 9), n_pos=rng.choice([0, 0, 1]),
                         types=["str", "i32", "bool"], list_types=["L_str"], used=used, required=0)
        ln = S.rand_line(rng, sp, p_use=rng.choice([0.3, 0.7, 1]))
        lst = any(p.is_list for p in sp.positionals)
        if lst and rng.random() < 0.7:  # decoys after the terminator
            if ln.after is None:
                ln.after = []
            sh = [p.short for p in sp.flags if p.short]
            rng.shuffle(sh)
            d = ["-" + "".join(sh)] if sh else []
            d += ["--" + p.long for p in sp.flags if p.long][:2] + ["-" + s for s in sh[:2]]
            rng.shuffle(d)
            ln.after += d
            p = [p for p in sp.positionals if p.is_list][0]
            ln.expected[p.slot] = ln.expected[p.slot] + tuple("s" + enc(x) for x in d)
        bad = None
        if rng.random() < 0.3:
            shorts = {p.short for p in sp.options + sp.flags} | {"h"}
            cl = [g for g in ln.groups if g.kind == "flag" and not g.tokens[0].startswith("--")]
            if cl:
                g = rng.choice(cl)
                letters = list(g.tokens[0][1:])
                c = rng.choice([x for x in S.SHORTS if x not in shorts])
                # an option letter first would be an option with an attached value
                letters.insert(rng.randint(1, len(letters)) if rng.random() < 0.8 else 0, c)
                t = "-" + "".join(letters)
                bad = c
                g.tokens = [t]
        if len(ln.argv()) < 2:
            continue
        e = Exp()
        sp.slots(e)
        av = ln.argv()
        e.parser("P", av)
        sp.decl(e)
        i = e.op("parse", "P")
        e.note = {"argv": av, "expected": ln.expected, "undeclared": bad}
        e.tag = "undeclared letter" if bad else "valid"

        def check(r, i=i, bad=bad, ln=ln):
            o = r.parse_outcome(i)
            if bad:
                if not isinstance(o, Exc):
                    return [("cluster with undeclared letter accepted", "%s: %r" % (bad, o))]
                return []
            if o != "ok":
                return [("valid flags rejected", "%r" % (o,))]
            return [("wrong value", "%s: expected %r got %r" % (s, v, r.values.get(s)))
                    for s, v in ln.expected.items() if V.canon(r.values.get(s)) != v]
        e.check = check
        exps.append(e)
        for g in ln.groups:
            if g.kind == "flag":
                ctx.count("cluster size %d" % len(g.ids))
    ctx.run(exps)
