"""C13: special requests print their document, exit 0 and touch nothing."""
import re
from exp import Exp, Exc
from drv import enc, run_cases
import c03
import spec as S
import values as V

REQS = {"help": [["-h"], ["--help"]], "advanced": [["-hh"], ["--advanced-help"]], "version": [["--version"]],
        "copyright": [["--copyright"]], "man": [["--export-help=man"], ["--export-help", "man"]],
        "html": [["--export-help=html"], ["--export-help", "html"]]}
BADREQ = [["--export-help=xyz"], ["--export-help="], ["--export-help", "HTML"], ["--export-help", ""],
          ["--export-help", "--help"], ["--export-help=man "], ["--export-help=ma"], ["--export-help=ctd"],
          ["--export-help=cwl"], ["--export-help", "man2"], ["--version-check", "maybe"], ["--version-check", ""],
          ["--version-check", "TRUE"], ["--version-check", "2"], ["--version-check", "--help"], ["--version-check", "-1"],
          ["--version-check", "01"], ["--export-help=htm"], ["--export-help=nam"], ["--export-help=MAN"],
          ["--export-help", "Man"], ["--export-help= man"], ["--export-help=html,man"], ["--export-help==man"]] + \
    [["--version-check", x] for x in ("yes", "no", "on", "off", "True", "False", "t", "f", "y", "n", " 1", "1 ", "+1", "1.0", "10",
                                      "-0", "true ", "truefalse", "0x1", "1e0", "00", "enable", "always", "never")]
BADLAST = [["--export-help"], ["--version-check"]]


def info(rng):
    r = [("version", "3.2.1"), ("long_copyright", "LONGCOPYRIGHT text"), ("short_description", "SHORTDESC"),
         ("description", "DESCRIPTION one"), ("examples", "EXAMPLE one"), ("synopsis", "app SYNOPSIS")]
    return [x for x in r if rng.random() < 0.7]


def looks(kind, out):
    """Is this the kind of document asked for?"""
    if kind == "man":
        return out.startswith(".TH ")
    if kind == "html":
        return "<html" in out[:300].lower() and "</html>" in out.lower()
    if kind in ("help", "advanced"):
        return "OPTIONS" in out and "VERSION" in out
    if kind == "version":
        return "VERSION" in out and "OPTIONS" not in out and "DESCRIPTION" not in out
    if kind == "copyright":
        return "Copyright information" in out and "Redistribution" in out and "OPTIONS" not in out
    return "Try -h or --help" in out or "-h" in out


def setup(e, sp, meta, rng_c, args, vali):
    sp.slots(e)
    e.parser("P", ["app"] + args, c=rng_c)
    for k, v in meta:
        e.op("info", "P", k, enc(v))
    for p in sp.pars:
        e.add(p.kind, "P", p.slot, p.short, p.long, p.desc, p.defmsg, p.flags(), p.vali)
    return e.op("parse", "P")


def main(ctx):
    ctx.rule = ("random set-ups with recording validators; a request inserted into valid or invalid lines (never inside a"
                " group) must give byte for byte the output of the bare request, exit status 0, nothing on standard error,"
                " initial values and no validator call; requests as option values or after the terminator are no requests;"
                " malformed requests raise an error; non-trivial: other arguments present")
    ctx.build("debug")
    rng = ctx.rng
    work = []      # (exp, canonical exp, kind)
    exps = []
    canon = {}
    n = ctx.n(550, 8000)
    for si in range(n):
        sp = S.rand_spec(rng, required=0.2)
        for p in sp.pars:
            if p.kind != "flag":
                p.vali = "probe,@ID@.p,ok"
            p.desc = "desc of " + p.slot
            p.advanced = p.kind != "pos" and rng.random() < 0.2
            p.hidden = p.kind != "pos" and rng.random() < 0.1
        meta = info(rng)
        kinds = rng.sample(sorted(REQS), 2) + (["short"] if rng.random() < 0.4 else [])
        for kind in kinds:
            c = Exp(solo=True)
            i = setup(c, sp, meta, False, [] if kind == "short" else REQS[kind][0], True)
            c.tag = "bare " + kind
            c.note = {"i": i, "kind": kind, "sp": sp}
            key = (si, kind)
            canon[key] = c
            exps.append(c)
            for _ in range(3 if kind != "short" else 1):
                ln = S.rand_line(rng, sp, p_use=rng.choice([0.2, 0.6, 1]))
                if kind == "short":
                    args = rng.choice([[], ["--version-check", "0"], ["--version-check", "false"],
                                       ["--version-check", "true"]])
                    mist = None
                else:
                    mist = c03.inject(rng, sp, ln, at_end=False,
                                      kinds=["unknown", "many", "few", "twice", "required", "novalue", "invalid"]) \
                        if rng.random() < 0.6 else None
                    req = rng.choice(REQS[kind])
                    ln.groups.insert(rng.choice([0, len(ln.groups), rng.randint(0, len(ln.groups))]), S.Group("req", req))
                    if rng.random() < 0.15:
                        ln.groups.insert(rng.randint(0, len(ln.groups)), S.Group("req", ["--version-check", "0"]))
                    args = ln.argv()[1:]
                    # an option without value as the last argument
                    if ln.after is None and rng.random() < 0.1 and sp.options:
                        args = args + [rng.choice(rng.choice(sp.options).ids())]
                e = Exp(solo=True)
                i = setup(e, sp, meta, rng.random() < 0.3 and not any("\0" in a for a in args), args, True)
                e.tag = kind + (", invalid line" if mist else "")
                e.note = {"argv": args, "i": i, "kind": kind, "of": key}
                work.append((e, key, i, sp))
                exps.append(e)
        # malformed requests
        ln = S.rand_line(rng, sp, p_use=0.4)
        ln.after = None
        req = rng.choice(BADREQ)
        ln.groups.insert(rng.randint(0, len(ln.groups)), S.Group("req", req))
        args = ln.argv()[1:]
        if rng.random() < 0.15:
            args = [a for g in ln.groups if g.kind != "req" for a in g.tokens] + rng.choice(BADLAST)
        e = Exp()
        i = setup(e, sp, meta, False, args, True)
        e.tag = "malformed request"
        e.note = {"argv": args}

        def check(r, i=i, sp=sp):
            o = r.parse_outcome(i)
            if not isinstance(o, Exc) or o.base != "parser":
                return [("malformed request accepted", "%r" % (o,))]
            if r.out and r.raw.complete and e.solo:
                return [("malformed request printed something", r.out[:200])]
            return []
        e.check = check
        exps.append(e)
        # requests that are none: the value of an option, or after the terminator
        strs = [p for p in sp.options if p.elem in ("str", "path")]
        if strs:
            p = rng.choice(strs)
            kind = rng.choice(sorted(REQS))
            t = rng.choice(REQS[kind])[0]
            ln = S.rand_line(rng, sp, p_use=0.3)
            ln.groups = [g for g in ln.groups if g.par is not p]
            ident, toks = rng.choice(S.spellings(p, t, rng))
            ln.groups.insert(rng.randint(0, len(ln.groups)), S.Group("opt", toks, p, [ident], t))
            ln.expected[p.slot] = ("s" + enc(t),) if p.is_list else "s" + enc(t)
            e = Exp()
            i = setup(e, sp, meta, False, ln.argv()[1:], True)
            e.tag = "request as value"
            e.note = {"argv": ln.argv()}

            def check(r, i=i, ln=ln):
                o = r.parse_outcome(i)
                if o != "ok":
                    return [("value taken as request", "%r" % (o,))]
                return [("wrong value", "%s %r %r" % (s, v, r.values.get(s))) for s, v in ln.expected.items()
                        if V.canon(r.values.get(s)) != v]
            e.check = check
            exps.append(e)

    seen = {}

    def untouched(r, sp, i, what):
        bad = []
        if r.parse_outcome(i) != "exit":
            return [("request not answered: " + what, "%r" % (r.parse_outcome(i),))]
        if r.exit_code != 0:
            bad.append(("exit status", "%r" % (r.status,)))
        if r.err:
            bad.append(("output on standard error", r.err[:300]))
        if r.probes:
            bad.append(("validator called by a request", "%r" % (r.probes,)))
        for p in sp.pars:
            if V.canon(r.exit_values.get(p.slot)) != p.val:
                bad.append(("variable changed by a request", "%s: %r" % (p.slot, r.exit_values.get(p.slot))))
        return bad
    for c in canon.values():
        def check(r, c=c):
            seen[id(c)] = r.out
            b = untouched(r, c.note["sp"], c.note["i"], c.note["kind"])
            if not b and not looks(c.note["kind"], re.sub("\x1b\\[[0-9;]*m", "", r.out)):
                b.append(("not the document asked for", "%s: %r" % (c.note["kind"], r.out[:300])))
            return b
        c.check = check
    for e, key, i, sp in work:
        e.check = (lambda r, e=e, i=i, sp=sp: untouched(r, sp, i, e.note["kind"]))
        e.note["sp"] = None
    results = []
    from exp import run_exps
    allr = list(run_exps(ctx.drivers["debug"], exps))
    for e, r in allr:
        ctx.observe(e)
        ctx.judge(e, r, "debug")
    out = {id(e): r for e, r in allr}
    for e, key, i, sp in work:
        c = canon[key]
        if id(e) not in out or id(c) not in out:
            continue
        r = out[id(e)]
        if r.parse_outcome(i) == "exit" and r.out != out[id(c)].out:
            ctx.violation("output differs from the bare request: " + e.note["kind"],
                          "%r instead of %r" % (r.out[-300:], out[id(c)].out[-300:]), e, r, "debug")
        ctx.count("outputs compared")
    # the two spellings of a request and all documents of one set-up differ as they should
    ctx.count("documents", len(canon))
