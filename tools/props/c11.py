"""C11: asking whether an option was set tells the truth."""
from exp import Exp, Exc
from drv import enc
import spec as S
import values as V


def decoy_texts(sp):
    own = []
    for p in sp.options + sp.flags:
        for i in p.ids():
            own += [i, i + "=1", i + "x", i.lstrip("-")]
    return own or ["-x"]


def main(ctx):
    ctx.rule = ("random set-ups with identifiers that are prefixes of each other; valid lines whose values and positionals"
                " look like declared identifiers; after the parse every declared identifier is asked for twice;"
                " non-trivial: at least one identifier asked for")
    ctx.build("debug", "fuzz")
    rng = ctx.rng
    exps = []
    for _ in range(ctx.n(8000, 120000)):
        used = set([""])
        sp = S.rand_spec(rng, types=["str", "str", "str", "i32", "bool", "path", "color", "f64"],
                         list_types=["L_str", "L_str", "D_str", "L_i32"], required=0.1, used=used)
        if not sp.options and not sp.flags:
            continue
        ln = S.rand_line(rng, sp, p_use=rng.choice([0.2, 0.5, 0.9]))
        own = decoy_texts(sp)
        new = {}
        for g in ln.groups:
            if g.kind == "opt" and g.par.elem in ("str", "path") and rng.random() < 0.5:
                old = g.text
                g.text = rng.choice(own)
                ln.ids  # identifiers of this group may change
                i, toks = rng.choice(S.spellings(g.par, g.text, rng))
                g.ids, g.tokens = [i], toks
        if ln.after is not None and any(p.elem in ("str", "path") for p in sp.positionals):
            lst = [p for p in sp.positionals if p.is_list and p.elem == "str"]
            if lst:
                first = len(ln.after)
                ln.after += [rng.choice(own) for _ in range(rng.randint(1, 4))]
                for _ in range(rng.choice([0, 0, 1, 2])):   # further terminators are ordinary positionals
                    ln.after.insert(rng.randint(first, len(ln.after)), "--")
                ln.expected[lst[0].slot] = None
        # recompute what was written
        ids = set()
        vals = {}
        for g in ln.groups:
            ids |= set(g.ids)
            if g.kind == "opt":
                vals.setdefault(g.par.slot, []).append(V.expect(g.text, g.par.elem))
                ln.expected[g.par.slot] = tuple(vals[g.par.slot]) if g.par.is_list else vals[g.par.slot][0]
        if len(ln.argv()) < 2:
            ln.after = []
        e = Exp()
        sp.slots(e)
        av = ln.argv()
        e.parser("P", av)
        sp.decl(e)
        i = e.op("parse", "P")
        ask = []
        for rnd in range(2):
            q = []
            for p in sp.options + sp.flags:
                if p.short:
                    q.append(("issetc", p.short, "-" + p.short))
                if p.long:
                    q.append(("issets", p.long, "--" + p.long))
            rng.shuffle(q)
            for o, a, ident in q:
                ask.append((e.op(o, "P", enc(a)), ident))
        e.note = {"argv": av, "written": sorted(ids)}
        e.tag = "asked"

        def check(r, i=i, ask=ask, ids=ids, ln=ln):
            o = r.parse_outcome(i)
            if o != "ok":
                return [("valid line rejected", "%r" % (o,))]
            bad = []
            for k, ident in ask:
                want = "1" if ident in ids else "0"
                if r.ops.get(k) != want:
                    bad.append(("wrong answer " + ("for a written" if want == "1" else "for an unwritten"),
                                "%s: %r" % (ident, r.ops.get(k))))
            for s, v in ln.expected.items():
                if v is not None and V.canon(r.values.get(s)) != v:
                    bad.append(("value changed", "%s: expected %r got %r" % (s, v, r.values.get(s))))
            return bad
        e.check = check
        exps.append(e)
        ctx.count("questions", len(ask))
        ctx.count("questions with answer yes", sum(1 for _, x in ask if x in ids))
    ctx.run(exps)
    ctx.fuzz("c11", ctx.n(3000, 120000), ctx.n(6, 8))
