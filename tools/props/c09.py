"""C09: any command line is answered without crash or undefined behaviour."""
import os
from exp import Exp, Exc
from drv import enc
import spec as S
import values as V

FIXED = ["-h", "--help", "-hh", "--advanced-help", "--version", "--copyright", "--export-help=man", "--export-help=html",
         "--export-help", "--export-help=", "--version-check", "--version-check=1", "0", "1", "true", "--", "-", "---",
         "", "=", "-=", "--=", "-\xff", "--\xff", "man", "--export-help=ctd", "%s%n%s", "\x7f", "-1", "-99999999999999999999",
         "1e999", "inf", "nan", "-nan", "0x", "1e", "infinity", "nan(123)", "\\", "\\fB", "a\\", "-\\"]
VALI = {"i32": ["range,-5,5", "list,1,2,3"], "str": ["list,a,b", "regex,a(b|c)*d", "regex,[0-9]{1,3}"],
        "f64": ["range,-1,1", "list,0.5"], "u8": ["range,3,200"], "L_str": ["list,a,b", "regex,x+"],
        "L_i32": ["range,0,9"], "i8": ["range,-100,100"], "color": ["list,1,2"],
        "path": ["indir", "infile", "infile,txt,fa.gz"], "u64": ["range,0,18446744073709551615"]}
NAUGHTY_VALI = {"str": ["outdir", "outfile,new", "outfile,open,txt", "infile,fa", "indir"],
                "path": ["outdir", "outfile,new,gz", "outfile,open", "indir"],
                "L_str": ["infile,fa,fq", "outfile,new"], "L_path": ["infile", "outdir"]}


def rand_bytes(rng):
    n = rng.choice([0, 1, 1, 2, 3, 5, 9, 20, 100])
    return bytes(rng.randint(1, 255) for _ in range(n)).decode("utf-8", "surrogateescape")


def mutate(rng, s):
    b = bytearray(s.encode("utf-8", "surrogateescape"))
    for _ in range(rng.choice([1, 1, 2, 4])):
        k = rng.random()
        i = rng.randint(0, len(b))
        if k < 0.35:
            b.insert(i, rng.randint(1, 255))
        elif k < 0.6 and b:
            del b[min(i, len(b) - 1)]
        elif k < 0.85 and b:
            b[min(i, len(b) - 1)] = rng.choice([rng.randint(1, 255), ord("-"), ord("="), ord("h")])
        elif b:
            j = rng.randint(0, len(b))
            b[i:i] = b[min(i, j):max(i, j)][:50]
    return bytes(b).decode("utf-8", "surrogateescape")


def rand_arg(rng, sp, subs):
    k = rng.random()
    ids = [i for p in sp.options + sp.flags for i in p.ids()]
    if k < 0.3 and ids:
        i = rng.choice(ids)
        return rng.choice([i, i, i + "=" + V.rand_str(rng), i + V.rand_str(rng), i + "=", i + rng.choice("abcxyz")])
    if k < 0.45:
        return rng.choice(FIXED)
    if k < 0.55:
        return V.rand_str(rng)
    if k < 0.65:
        return V.rand_text(rng, rng.choice(["i32", "f64", "bool", "color", "point", "i64"]))
    if k < 0.72:
        return V.invalid_number(rng, rng.choice(["i32", "f64", "bool", "u8", "ld"]))
    if k < 0.76 and subs:
        return rng.choice(subs)
    if k < 0.85:
        return rand_bytes(rng)
    if k < 0.97:
        return mutate(rng, rng.choice(ids + FIXED + V.WORDS))
    return rng.choice(["a", "-", "--", "1", "=", "-a", "\xe9", "-o=", "0."]) * rng.choice([10, 100, 1000, 5000])


def verdict(idx, more=()):
    def check(r):
        bad = []
        for i in idx:
            if i not in r.began and i not in r.ops:
                continue
            o = r.parse_outcome(i)
            if o == "ok":
                continue
            if o == "exit":
                if r.err:
                    bad.append(("exit with output on standard error", r.err[:200]))
                continue
            if isinstance(o, Exc):
                if o.base == "design":
                    bad.append(("user input raised a design error", "%r" % (o,)))
                elif o.base != "parser":
                    bad.append(("undocumented exception " + o.cls, "%r" % (o,)))
                elif not o.cls.startswith("sharg::"):
                    bad.append(("undocumented exception " + o.cls, "%r" % (o,)))
            else:
                bad.append(("abnormal end", "%r %r" % (o, r.status)))
        return bad
    return check


def one(ctx, rng, k):
    e = Exp()
    sp = S.rand_spec(rng, required=0.1)
    naughty = rng.random() < 0.12
    for p in sp.pars:
        if p.kind == "flag":
            continue
        pool = dict(VALI)
        if naughty:
            pool.update(NAUGHTY_VALI)
        if p.type in pool and rng.random() < (0.8 if naughty else 0.3):
            p.vali = rng.choice(pool[p.type])
        p.advanced = p.kind == "opt" and rng.random() < 0.1
        p.desc = rng.choice(["", "desc", "a\\", "\\fBbold\\fP \\-", "<b>&"])
    subs = rng.choice([[], [], [], ["build", "search"]]) if not sp.positionals else []
    n = rng.choice([0, 1, 1, 2, 3, 4, 6, 10, 30])
    args = [rand_arg(rng, sp, subs) for _ in range(n)]
    args = [a.replace("\0", "") for a in args]
    if any(len(a) > 3000 for a in args):
        for p in sp.pars:
            if "regex" in p.vali:
                p.vali = "none"
    if naughty:
        d = ctx.scratch("n%s" % k)
        os.chmod(d, 0o777)
        with open(os.path.join(d, "file.txt"), "w") as f:
            f.write("x")
        os.chmod(os.path.join(d, "file.txt"), 0o644)
        e.solo = True
        e.op("chdir", enc(d))
        e.op("user")
    if any("help" in a or a in ("-h", "-hh", "--version", "--copyright") for a in args) or not args:
        e.solo = True
    sp.slots(e)
    if rng.random() < 0.005:
        line = []       # not even the name of the program
    else:
        line = [rng.choice(["app", "", "-", "--help", "\xff", "./a b"])] + args
    e.parser("P", line, subs=subs, c=rng.random() < 0.5)
    sp.decl(e)
    idx = [e.op("parse", "P")]
    if subs:
        e.op("sub", "P", "Q")
        e.slot("w", "str", ["d"])
        e.slot("x", "L_i32", [])
        e.add("opt", "Q", "w", "o", "opt", "d")
        e.add("pos", "Q", "x")
        idx.append(e.op("parse", "Q"))

        base = verdict(idx[:1])

        def check(r):
            bad = base(r)
            if r.parse_outcome(idx[0]) == "ok" and not isinstance(r.ops.get(idx[0] + 1), Exc):
                bad += verdict(idx[1:])(r)
            return bad
        e.check = check
    else:
        e.check = verdict(idx)
    e.tag = "hostile paths" if naughty else "subcommands" if subs else "hostile"
    e.note = {"argv": [a[:200] for a in args]}
    return e


def long_ones():
    """Long values and many arguments."""
    for t in V.SCALARS + sorted(V.LISTS):
        for c in ("1", "a", "-", "=", " ", "0", ".", "\xff"):
            for n in (4096, 300000):
                for form in (["-o", c * n], ["-o=" + c * n], ["--opt=" + c * n], [c * n]):
                    e = Exp()
                    e.slot("v", t, V.rand_init(__import__("random").Random(1), t)[0])
                    e.parser("P", ["app"] + form)
                    e.add("opt", "P", "v", "o", "opt")
                    e.check = verdict([e.op("parse", "P")])
                    e.tag = "long value"
                    yield e
    for n in (100, 20000):
        for a in ("x", "-f", "-o", "--", "--opt=1", "-o=1", "-", "-x", "--help2"):
            e = Exp()
            e.slot("v", "L_i32", [])
            e.slot("p", "L_str", [])
            e.slot("f", "bool", ["0"])
            e.parser("P", ["app"] + [a] * n)
            e.add("opt", "P", "v", "o", "opt")
            e.add("flag", "P", "f", "f")
            e.add("pos", "P", "p")
            e.check = verdict([e.op("parse", "P")])
            e.tag = "many arguments"
            yield e


def regex_stack():
    e = Exp(solo=True)
    e.slot("v", "str", [""])
    e.parser("P", ["app", "-o", "a" * 1000000])
    e.add("opt", "P", "v", "o", "opt", vali="regex," + enc("a*"))
    e.check = verdict([e.op("parse", "P")])
    e.tag = "pattern validator on a value of a million characters"
    return e


def main(ctx):
    ctx.rule = ("random set-ups (all types, validators, subcommands) with argument lists of random bytes, mutated and"
                " correct identifiers, special requests, very long values and many arguments; debug and release builds"
                " with ASan+UBSan; the outcome must be return, exit 0 or a documented non-design error; non-trivial: at"
                " least one argument")
    fl = ["debug", "release0"] + (["release"] if ctx.tier == "thorough" else [])
    ctx.build("fuzz", *fl)
    rng = ctx.rng
    longs = list(long_ones())
    if ctx.tier != "thorough":
        longs = [e for i, e in enumerate(longs) if (i + ctx.seed) % 4 == 0]
    for f in fl:
        exps = [one(ctx, rng, "%s%d" % (f, k)) for k in range(ctx.n(6000, 120000))]
        ctx.run(exps, f)
        ctx.run(longs, f, alarm=60)
        ctx.run([regex_stack()], f, known_as="crash on a long value of a pattern validator")
    ctx.fuzz("c09", ctx.n(3000, 120000), ctx.n(6, 8))
    ctx.assumptions.append("no NUL bytes in arguments (guaranteed by the operating system)")
