"""C01: every accepted spelling delivers exactly the written value."""
from exp import Exp, Exc
import spec as S
import values as V


def expect_success(ln, idx):
    def check(r):
        bad = []
        o = r.parse_outcome(idx)
        if o != "ok":
            return [("valid line rejected" if isinstance(o, Exc) else "valid line: " + str(o), "outcome %r" % (o,))]
        for s, v in ln.expected.items():
            got = V.canon(r.values.get(s))
            if got != v:
                bad.append(("wrong value", "%s: expected %r got %r" % (s, v, got)))
        return bad
    return check


def make(rng, **kw):
    while True:
        sp = S.rand_spec(rng, **kw)
        ln = S.rand_line(rng, sp)
        if len(ln.argv()) > 1:
            break
    e = Exp()
    sp.slots(e)
    av = ln.argv(rng.choice(["app", "./app", "/usr/bin/app"]))
    c = rng.random() < 0.3 and not any("\0" in a for a in av)
    e.parser("P", av, c=c)
    sp.decl(e)
    i = e.op("parse", "P")
    e.check = expect_success(ln, i)
    e.note = {"expected": ln.expected, "argv": av}
    e.tag = "terminator" if ln.after is not None else "plain"
    return e, sp, ln


def main(ctx):
    ctx.rule = ("random set-ups (0..5 options over all value types, flags, positionals) and command lines built from an"
                " intent (which value for which variable, in which spelling); non-trivial: at least one argument")
    ctx.build("debug", "fuzz")
    exps = []
    for _ in range(ctx.n(8000, 150000)):
        e, sp, ln = make(ctx.rng)
        exps.append(e)
        for g in ln.groups:
            if g.kind == "opt":
                ctx.count("spelling:" + ("separate" if len(g.tokens) == 2 else
                                         "equals" if g.tokens[0].startswith(g.ids[0] + "=") else "attached"))
                ctx.count("type:" + g.par.type)
    ctx.run(exps)
    ctx.fuzz("c01", ctx.n(3000, 120000), ctx.n(6, 8))
