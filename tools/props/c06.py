"""C06: list options collect all values in order and replace the default."""
from exp import Exp
import c01
import spec as S
import values as V


def main(ctx):
    ctx.rule = ("set-ups with 1..4 list options of all containers and a possible positional list, defaults of 0..4"
                " elements, 0..12 values per list in mixed spellings, interleaved with other options; non-trivial: a list"
                " was given, or has a default that must survive")
    ctx.build("debug")
    rng = ctx.rng
    exps = []
    for _ in range(ctx.n(7000, 120000)):
        used = set([""])
        sp = S.rand_spec(rng, n_opt=rng.randint(1, 4), n_flag=rng.choice([0, 1, 2]), n_pos=rng.choice([0, 1, 2]),
                         types=sorted(V.LISTS) if rng.random() < 0.5 else ["L_str", "L_i32", "str", "L_f64"],
                         used=used)
        # positional lists must come last: keep scalars before
        pos = sp.positionals
        for p in pos[:-1]:
            if p.is_list:
                p.type = p.elem
                p.init, p.val = V.rand_init(rng, p.type)
        ln = S.rand_line(rng, sp, max_list=rng.choice([1, 3, 12]), p_use=0.6)
        if len(ln.argv()) < 2:
            ln.after = []
        e = Exp()
        sp.slots(e)
        av = ln.argv()
        e.parser("P", av)
        sp.decl(e)
        i = e.op("parse", "P")
        e.check = c01.expect_success(ln, i)
        e.note = {"expected": ln.expected, "argv": av}
        for p in sp.pars:
            if p.is_list:
                given = ln.expected[p.slot] != p.val or any(g.par is p for g in ln.groups) or p.kind == "pos"
                ctx.count("%s given" % p.type if given else "%s default kept" % p.type)
        e.tag = "lists"
        exps.append(e)
    ctx.run(exps)
