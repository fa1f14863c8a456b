"""C03: every mistake on a command line is rejected with the documented error class. Also used by C02 and C29."""
from exp import Exp, Exc
import spec as S
import values as V

UNKNOWN, MANY, FEW = "sharg::unknown_option", "sharg::too_many_arguments", "sharg::too_few_arguments"
TWICE, REQ, USER = "sharg::option_declared_multiple_times", "sharg::required_option_missing", "sharg::user_input_error"


def reserved_like(t):
    """Texts that are special requests."""
    return t.split("=")[0] in ("-h", "--help", "-hh", "--advanced-help", "--version", "--copyright", "--export-help",
                               "--version-check")


def unknown_token(rng, sp):
    """An argument that no declaration covers; (what, token, culprit)"""
    longs = {p.long for p in sp.options + sp.flags if p.long}
    opt_short = {p.short for p in sp.options if p.short}
    flag_short = {p.short for p in sp.flags if p.short}
    for _ in range(100):
        k = rng.random()
        if rng.random() < 0.04:
            t = "-" * rng.choice([3, 3, 4, 5, 9])
            return "unknown long", t, t
        if k < 0.45:
            base = rng.choice(sorted(longs) or S.LONGS) if rng.random() < 0.8 else rng.choice(S.LONGS)
            m = rng.choice(["cut", "more", "case", "other", "short-as-long", "digit"])
            if m == "cut":
                base = base[:-1]
            elif m == "more":
                base += rng.choice(["x", "-", "2", "_", ".", " "])
            elif m == "case":
                base = base.swapcase()
            elif m == "short-as-long":
                base = rng.choice(sorted(opt_short | flag_short) or ["q"])
            elif m == "digit":
                base = "7"
            t = "--" + base
            if not base or base in longs or reserved_like(t):
                continue
            if rng.random() < 0.25:
                return "unknown long with value", t + "=" + rng.choice(["1", "x", "", "a b"]), t
            return "unknown long", t, t
        if k < 0.6:
            fl = [p for p in sp.flags if p.long]
            if not fl:
                continue
            p = rng.choice(fl)
            t = "--" + p.long + "=" + rng.choice(["1", "0", "true", "x"])
            return "flag with value", t, "--" + p.long
        free = [c for c in S.SHORTS if c not in opt_short | flag_short]
        c = rng.choice(free)
        if k < 0.8 or not flag_short:
            if rng.random() < 0.3:
                c += rng.choice(["5", "=5", "=", "x", c])  # reserved 'h' does not occur in SHORTS
            t = "-" + c
            if c[0] == "h" or reserved_like(t):
                continue
            return "unknown short", t, c[0]
        if sp.unused_flags:
            letters = [p.short for p in sp.unused_flags if p.short]
            if not letters:
                continue
            rng.shuffle(letters)
            letters = letters[:rng.randint(1, len(letters))]
            letters.insert(rng.randint(0, len(letters)), c)
            if letters[0] in opt_short or letters[0] == "h":
                continue
            return "cluster with unknown letter", "-" + "".join(letters), c
    return None


def inject(rng, sp, ln, at_end=True, kinds=None):
    """Adds one mistake to a valid line; returns (kind, class, culprit(s)) or None. Culprits: list of alternatives."""
    used = set()
    for g in ln.groups:
        for i in g.ids:
            for p in sp.options + sp.flags:
                if i in p.ids():
                    used.add(p.slot)
    sp.unused_flags = [p for p in sp.flags if p.slot not in used]
    for _ in range(20):
        k = rng.choice(kinds or ["unknown", "unknown", "many", "few", "twice", "flagtwice", "required", "novalue", "invalid"])
        at = rng.randint(0, len(ln.groups))
        if k == "unknown":
            u = unknown_token(rng, sp)
            if not u:
                continue
            before = [g for g in ln.groups[:at] if g.kind == "pos" and (not g.par or g.par.elem in ("str", "path"))]
            if before and rng.random() < 0.25:     # a lone dash is a positional argument, it ends nothing
                rng.choice(before).tokens = ["-"]
            ln.groups.insert(at, S.Group("bad", [u[1]]))
            return u[0], UNKNOWN, [u[2]], u[1]
        if k == "many":
            if any(p.is_list for p in sp.positionals):
                continue
            n = rng.choice([1, 1, 2, 5])
            ts = [rng.choice(["x", "", "5", "-", "extra arg", "ü"]) for _ in range(n)]
            if ln.after is not None:
                ln.after += ts
            else:
                ln.groups += [S.Group("pos", [t], None, [], t) for t in ts]
            return "surplus positional", MANY, [ts[0]], ts[0]
        if k == "few":
            if not sp.positionals:
                continue
            # drop the last positional (all of a list)
            n = sum(1 for g in ln.groups if g.kind == "pos") + len(ln.after or [])
            keep = rng.randint(0, len(sp.positionals) - 1)
            drop = n - keep
            while drop and ln.after:
                ln.after.pop()
                drop -= 1
            while drop:
                i = max(i for i, g in enumerate(ln.groups) if g.kind == "pos")
                del ln.groups[i]
                drop -= 1
            if not ln.groups and ln.after is None:
                ln.after = []
            return "missing positional", FEW, [], None
        if k == "twice":
            c = [g for g in ln.groups if g.kind == "opt" and not g.par.is_list]
            if not c:
                continue
            g = rng.choice(c)
            t = g.text if rng.random() < 0.3 else V.rand_text(rng, g.par.elem)
            i, toks = rng.choice(S.spellings(g.par, t, rng))
            ln.groups.insert(at, S.Group("opt", toks, g.par, [i], t))
            return ("given twice, both identifiers" if i != g.ids[0] else "given twice"), TWICE, g.par.ids(), None
        if k == "flagtwice":    # not a cluster of its own letters: also --foo --foo, -a --foo, -aa, -aba
            c = [p for p in sp.flags if p.slot in used] + sp.unused_flags
            if not c:
                continue
            p = rng.choice(c)
            given = p.slot in used
            if rng.random() < 0.5 and p.short and not given:
                others = [q.short for q in sp.unused_flags if q.short and q is not p]
                rng.shuffle(others)
                letters = others[:rng.randint(0, len(others))] + [p.short] * 2
                rng.shuffle(letters)
                if letters[0] == "h" or len(letters) == 2 and letters[0] == letters[1] == "h":
                    continue
                ln.groups.insert(at, S.Group("bad", ["-" + "".join(letters)]))
                return "flag twice in a cluster", (UNKNOWN, TWICE), p.ids(), None
            for _ in range(1 if given else 2):
                ln.groups.insert(rng.randint(0, len(ln.groups)), S.Group("bad", [rng.choice(p.ids())]))
            return "flag given twice", (UNKNOWN, TWICE), p.ids(), None
        if k == "required":
            c = [p for p in sp.options if p.required and p.slot in used]
            if not c:
                continue
            p = rng.choice(c)
            ln.groups = [g for g in ln.groups if g.par is not p]
            if not ln.groups and ln.after is None:
                ln.after = []
            if not ln.groups and not ln.after and sp.positionals:
                pass
            return "required option missing", REQ, p.ids(), None
        if k == "novalue":
            c = [p for p in sp.options if p.slot not in used]
            if not c:
                continue
            p = rng.choice(c)
            i = rng.choice(p.ids())
            if rng.random() < 0.3:
                ln.groups.insert(at, S.Group("bad", [i + "="]))
                return "empty value after =", FEW, [i], None
            if not at_end or ln.after is not None:
                continue
            ln.groups.append(S.Group("bad", [i]))
            return "option without value", FEW, [i], None
        if k == "invalid":
            c = [p for p in sp.options if p.slot not in used and V.elem(p.type) not in ("str", "path")]
            if not c:
                continue
            p = rng.choice(c)
            t = V.invalid_text(rng, p.elem)
            sps = S.spellings(p, t, rng)
            i, toks = rng.choice(sps)
            ln.groups.insert(at, S.Group("opt", toks, p, [i], t))
            return "invalid value", USER, [i, t], (p, t, i)
    return None


def expect_class(cls, idx, init=None):
    def check(r):
        o = r.parse_outcome(idx)
        if not isinstance(o, Exc):
            return [("mistake accepted: %s" % (cls,), "outcome %r" % (o,))]
        if o.cls != cls and o.cls not in (cls if isinstance(cls, tuple) else ()):
            return [("wrong error class: expected %s" % (cls,), "got %r" % (o,))]
        return []
    return check


def make(rng, **kw):
    while True:
        sp = S.rand_spec(rng, required=0.3)
        ln = S.rand_line(rng, sp)
        m = inject(rng, sp, ln, **kw)
        if m and len(ln.argv()) > 1:
            break
    e = Exp()
    sp.slots(e)
    av = ln.argv()
    e.parser("P", av, c=rng.random() < 0.3 and not any("\0" in a for a in av))
    sp.decl(e)
    i = e.op("parse", "P")
    e.note = {"argv": av, "mistake": m[0], "class": m[1]}
    e.tag = m[0]
    return e, sp, ln, m, i


def main(ctx):
    ctx.rule = ("a random set-up with a valid command line into which exactly one mistake is injected; non-trivial: every"
                " case contains a mistake and at least one argument")
    ctx.build("debug", "fuzz")
    exps = []
    for _ in range(ctx.n(9000, 150000)):
        e, sp, ln, m, i = make(ctx.rng)
        e.check = expect_class(m[1], i)
        exps.append(e)
    ctx.run(exps)
    ctx.fuzz("c03", ctx.n(3000, 120000), ctx.n(6, 8))
