"""C02: argument order and declaration order do not matter (metamorphic)."""
from exp import Exp, Exc
import c03
import spec as S
import values as V


def shuffled_groups(rng, groups):
    """A permutation that keeps the order of positionals and of the values of one list option."""
    free, lists = [], {}
    for g in groups:
        if g.kind == "pos":
            lists.setdefault("pos", []).append(g)
        elif g.kind == "opt" and g.par is not None and g.par.is_list:
            lists.setdefault(g.par.slot, []).append(g)
        else:
            free.append(g)
    rng.shuffle(free)
    seqs = list(lists.values())
    rng.shuffle(seqs)
    return S.interleave(rng, free, seqs)


def shuffled_decl(rng, pars):
    pos = [p for p in pars if p.kind == "pos"]
    rest = [p for p in pars if p.kind != "pos"]
    rng.shuffle(rest)
    return S.interleave(rng, rest, [pos])


def main(ctx):
    ctx.rule = ("one set-up, 2 to 4 variants of the same command line (groups permuted) and of the declaration order;"
                " non-trivial: at least two groups or two declarations differ in order")
    ctx.build("debug", "fuzz")
    rng = ctx.rng
    exps = []
    for _ in range(ctx.n(5000, 100000)):
        sp = S.rand_spec(rng, required=0.2)
        ln = S.rand_line(rng, sp)
        mistake = None
        if rng.random() < 0.45:
            mistake = c03.inject(rng, sp, ln, at_end=False)
        if len(ln.argv()) < 2:
            continue
        e = Exp()
        # every variant has slots of its own, by suffix
        variants = []
        for k in range(rng.choice([2, 2, 3, 4])):
            order = list(sp.pars) if k == 0 or rng.random() < 0.3 else shuffled_decl(rng, sp.pars)
            groups = list(ln.groups) if k == 0 or rng.random() < 0.2 else shuffled_groups(rng, ln.groups)
            av = ["app"]
            for g in groups:
                av += g.tokens
            if ln.after is not None:
                av += ["--"] + ln.after
            pn, suf = "P%d" % k, "x%d" % k
            for p in sp.pars:
                e.slot(p.slot + suf, p.type, p.init)
            e.parser(pn, av)
            for p in order:
                e.add(p.kind, pn, p.slot + suf, p.short, p.long, p.desc, p.defmsg, p.flags(), p.vali)
            variants.append((e.op("parse", pn), suf, av, [p.slot for p in order]))
        e.note = {"variants": [(v[2], v[3]) for v in variants], "mistake": mistake and mistake[0]}
        e.tag = "invalid: " + mistake[0] if mistake else "valid"

        def check(r, variants=variants, sp=sp, mistake=mistake, ln=ln):
            outs = [r.parse_outcome(v[0]) for v in variants]
            kinds = ["ok" if o == "ok" else "error" if isinstance(o, Exc) else o for o in outs]
            bad = []
            if len(set(kinds)) > 1 or kinds[0] in ("exit", "died"):
                bad.append(("outcome depends on the order", "%r" % (outs,)))
            elif kinds[0] == "ok":
                for p in sp.pars:
                    vs = [V.canon(r.values.get(p.slot + v[1])) for v in variants]
                    if any(x != vs[0] for x in vs):
                        bad.append(("value depends on the order", "%s: %r" % (p.slot, vs)))
            if mistake and "ok" in kinds:
                bad.append(("invalid line accepted in some order", "%s %r" % (mistake[0], outs)))
            if not mistake and "error" in kinds:
                bad.append(("valid line rejected in some order", "%r" % (outs,)))
            return bad
        e.check = check
        exps.append(e)
    ctx.run(exps, pack=12)
    ctx.fuzz("c02", ctx.n(3000, 120000), ctx.n(6, 8))
