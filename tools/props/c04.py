"""C04: everything after a lone '--' is delivered verbatim."""
from exp import Exp, Exc
from drv import enc
import spec as S
import values as V

SPECIAL = ["--help", "-h", "-hh", "--advanced-help", "--version", "--copyright", "--export-help=man",
           "--export-help=html", "--export-help", "--export-help=xyz", "--version-check", "--version-check=0",
           "--version-check=maybe", "--", "-", "---", "--=", "-=", "", "=", "----"]


def main(ctx):
    ctx.rule = ("random set-ups with string positionals; after the terminator, arguments that look like declared options,"
                " flags, clusters, special requests, or further terminators; non-trivial: at least one such argument")
    ctx.build("debug", groups=[0, 4, 5])
    rng = ctx.rng
    exps = []
    types = ["str", "path", "bool", "i32", "color"]
    for _ in range(ctx.n(8000, 120000)):
        used = set([""])
        sp = S.rand_spec(rng, n_pos=0, types=types, list_types=["L_str", "L_i32", "D_str"], used=used, required=0.1)
        npos = rng.choice([0, 1, 1, 2, 3])
        lst = npos and rng.random() < 0.7
        for k in range(npos):
            t = rng.choice(["L_str", "L_str", "D_str", "L_path"]) if lst and k == npos - 1 else rng.choice(["str", "path"])
            init, val = V.rand_init(rng, t)
            sp.pars.append(S.Par("pos", "q%d" % k, t, "", "", init, val))
        # line before the terminator
        pos = sp.positionals
        sp2 = S.Spec()
        sp2.pars = [p for p in sp.pars if p.kind != "pos"]
        ln = S.rand_line(rng, sp2, p_use=0.5)
        exp = dict(sp.initial())
        exp.update(ln.expected)
        if ln.after is not None:
            ln.after = None
        # an option whose value is the terminator itself
        dash = None
        c = [p for p in sp2.options if p.elem in ("str", "path") and not any(g.par is p for g in ln.groups)]
        if c and rng.random() < 0.3:
            p = rng.choice(c)
            i, toks = rng.choice(S.spellings(p, "--", rng))
            ln.groups.insert(rng.randint(0, len(ln.groups)), S.Group("opt", toks, p, [i], "--"))
            ln.ids.add(i)
            exp[p.slot] = ("s" + enc("--"),) if p.is_list else "s" + enc("--")
            dash = i
        own = []
        for p in sp2.pars:
            for i in p.ids():
                own += [i, i + "=x", i + "=1", i + "5", i + "="]
        fl = [p.short for p in sp2.flags if p.short]
        if fl:
            own += ["-" + "".join(fl), "-" + "".join(reversed(fl)), "-" + fl[0] + "zz"]
        n = len(pos) - (1 if lst else 0) + (rng.randint(1, 6) if lst else 0)
        texts = []
        for k in range(n):
            r = rng.random()
            texts.append(rng.choice(own) if own and r < 0.5 else rng.choice(SPECIAL) if r < 0.85
                         else V.rand_str(rng))
        cut = 0
        if texts and rng.random() < 0.4:   # some positionals before the terminator
            while cut < len(texts) and S.positional_ok_plain(texts[cut]):
                cut += 1
            cut = rng.randint(0, cut)
        before = [S.Group("pos", [t], None, [], t) for t in texts[:cut]]
        ln.groups = S.interleave(rng, [], [ln.groups, before])
        k = 0
        for p in pos:
            if p.is_list:
                exp[p.slot] = tuple("s" + enc(t) for t in texts[k:])
            else:
                exp[p.slot] = "s" + enc(texts[k])
                k += 1
        surplus = not lst and rng.random() < 0.3
        after = texts[cut:]
        if surplus:
            after = after + [rng.choice(own + SPECIAL)]
        ln.after = after
        e = Exp()
        sp.slots(e)
        av = ln.argv()
        e.parser("P", av)
        sp.decl(e, order=S.interleave(rng, sp2.pars, [pos]))
        i = e.op("parse", "P")
        ask = []
        for p in sp2.pars:
            if p.short:
                ask.append((e.op("issetc", "P", enc(p.short)), "-" + p.short))
            if p.long:
                ask.append((e.op("issets", "P", enc(p.long)), "--" + p.long))
        e.note = {"argv": av, "expected": exp, "surplus": surplus}
        e.tag = ("surplus" if surplus else "verbatim") + (", -- as value" if dash else "")

        def check(r, i=i, exp=exp, surplus=surplus, ask=ask, ids=ln.ids):
            o = r.parse_outcome(i)
            if surplus:
                if not isinstance(o, Exc) or o.cls != "sharg::too_many_arguments":
                    return [("surplus argument after terminator", "outcome %r" % (o,))]
                return []
            if o != "ok":
                return [("line with terminator not accepted", "outcome %r" % (o,))]
            bad = []
            for s, v in exp.items():
                if V.canon(r.values.get(s)) != v:
                    bad.append(("wrong value", "%s: expected %r got %r" % (s, v, r.values.get(s))))
            for k, ident in ask:
                if r.ops.get(k) != ("1" if ident in ids else "0"):
                    bad.append(("is_option_set after terminator", "%s: %r" % (ident, r.ops.get(k))))
            return bad
        e.check = check
        exps.append(e)
        ctx.count("arguments after terminator", len(after))
    ctx.run(exps)
