"""Random complete programs over the API (for the checks that compare two runs of the same program)."""
from drv import enc
from exp import Exp
import doc as D
import spec as S
import values as V
import c03
import c09

REQUESTS = ["-h", "-hh", "--help", "--advanced-help", "--version", "--copyright", "--export-help=man",
            "--export-help=html", ""]


def queries(e, rng, sp, parser="P"):
    """Queries after parse."""
    for p in sp.options + sp.flags:
        for i in p.ids():
            if rng.random() < 0.6:
                if len(i) == 2:
                    e.op("issetc", parser, enc(i[1]))
                else:
                    e.op("issets", parser, enc(i[2:]))
    if rng.random() < 0.1:
        e.op("issets", parser, enc(rng.choice(["nope", "no-such"])))


def line_program(rng, mistakes=0.3, probes=True):
    e = Exp()
    sp = S.rand_spec(rng, required=0.15)
    ln = S.rand_line(rng, sp)
    m = None
    if rng.random() < mistakes:
        m = c03.inject(rng, sp, ln)
    for p in sp.pars:
        if p.kind != "flag" and p.type in c09.VALI and rng.random() < 0.3:
            p.vali = rng.choice(c09.VALI[p.type])
    sp.slots(e)
    av = ln.argv()
    e.parser("P", av, c=rng.random() < 0.3 and not any("\0" in a for a in av))
    if rng.random() < 0.3:
        e.op("info", "P", "version", enc("1.2.3"))
    sp.decl(e)
    e.op("parse", "P")
    queries(e, rng, sp)
    if rng.random() < 0.1:
        e.op("parse", "P")
    e.tag = "line with mistake" if m else "line"
    return e


def hostile_program(rng):
    e = Exp()
    sp = S.rand_spec(rng)
    args = [c09.rand_arg(rng, sp, []) for _ in range(rng.choice([1, 2, 3, 5]))]
    sp.slots(e)
    e.parser("P", ["app"] + [a.replace("\0", "")[:300] for a in args])
    sp.decl(e)
    e.op("parse", "P")
    queries(e, rng, sp)
    e.tag = "hostile"
    return e


def page_program(rng):
    doc = D.Doc(rng, maxlen=20, blanks=True, words=D.PLAIN + D.UNI + D.SPECIAL + D.FORMAT)
    req = rng.choice(REQUESTS)
    e = doc.program(([req] if req else []), solo=True)
    e.tag = "page " + (req or "short")
    return e


def sub_program(rng):
    """A program with one or two levels of subcommands."""
    e = Exp()
    used = set([""])
    sp = S.rand_spec(rng, n_pos=0, prefix="a", used=used)
    ln = S.rand_line(rng, sp, ambiguous=False)
    ln.after = None
    subs = ["build", "search", "x-y"]
    levels = rng.choice([1, 1, 2])
    sps = [S.rand_spec(rng, prefix="bc"[i], n_pos=None if i == levels - 1 else 0, pos_list=True) for i in range(levels)]
    lns = [S.rand_line(rng, s, ambiguous=False) for s in sps]
    for l in lns[:-1]:
        l.after = None
    req = ""
    if rng.random() < 0.2:
        req = rng.choice(REQUESTS[:-1])
    if rng.random() < 0.2:
        c03.inject(rng, *rng.choice(list(zip([sp] + sps, [ln] + lns))))
    # words equal to subcommands would select another parser
    av = ["app"] + [t for g in ln.groups for t in g.tokens if t not in subs]
    words = []
    for i, l in enumerate(lns):
        words.append(rng.choice(subs))
        av.append(words[-1])
        if i == levels - 1 and req:
            av.append(req)
        av += [t for t in l.argv()[1:] if t not in subs]
    for s in [sp] + sps:
        s.slots(e)
    ctor = rng.random() < 0.5
    e.parser("P", av, subs=subs if ctor else ())
    if not ctor:
        e.op("subcmds", "P", *[enc(s) for s in subs])
    sp.decl(e)
    e.op("parse", "P")
    if rng.random() < 0.3:
        queries(e, rng, sp)
    up = "P"
    for i, s in enumerate(sps):
        q = "Q%d" % i
        e.op("sub", up, q)
        e.parsers.append(q)
        if i < levels - 1:
            e.op("subcmds", q, *[enc(x) for x in subs])
        s.declare(e, q)
        if rng.random() < 0.3:
            e.op("info", q, "description", enc("text of the sub parser"))
        e.op("parse", q)
        queries(e, rng, s, q)
        up = q
    queries(e, rng, sp)
    e.tag = "subcommands %d%s" % (levels, " request" if req else "")
    return e


def rand_program(rng, pages=0.25):
    k = rng.random()
    if k < pages:
        return page_program(rng)
    if k < pages + 0.25:
        return sub_program(rng)
    if k < pages + 0.35:
        return hostile_program(rng)
    return line_program(rng)
