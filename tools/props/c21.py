"""C21: extensions match whole, case-insensitive suffix components."""
import os
from drv import enc
from exp import Exp, Exc
import c18 as C18

POOL = ["fa", "fasta", "fq", "gz", "fa.gz", "fq.gz", "txt", "tar.gz", "x", "a", "h5", "sam", "bam", "fasta.txt", "FA", "Fq.Gz",
        ".fa", ".tar.gz", "f", "z", "1", "fa-x", "c++", "ä", "f a", "~", "_b", "x{1}", "c[1]", "a_b",
        "@2", "b^", "1|2"]
STEMS = ["x", "sample", "a.b", "fa", "gz", "x.fa", "..", ".", "", "sam ple", ".hid", "ü", "x-y", "x_", "a.b.c", "Xfa", "1", "...",
         "-x", "fa.fa"]


def recase(rng, s):
    k = rng.random()
    if k < 0.4:
        return s
    if k < 0.55:
        return "".join(c.upper() if ord(c) < 128 else c for c in s)
    return "".join((c.upper() if rng.random() < 0.5 else c.lower()) if ord(c) < 128 else c for c in s)


def name(rng, exts):
    """A file name near the border of what the extensions accept."""
    e = recase(rng, rng.choice(exts or POOL)).lstrip(".")
    stem = rng.choice(STEMS)
    if e and rng.random() < 0.15:     # a character whose code differs like those of upper and lower case letters
        i = rng.randrange(len(e))
        c = chr(ord(e[i]) ^ rng.choice([0x20, 0x20, 0x40, 0x10]))
        if ord(c) < 0x100 and c not in "\0/":
            e = e[:i] + c + e[i + 1:]
    k = rng.random()
    if k < 0.40:
        n = stem + "." + e
    elif k < 0.50:
        n = stem + e                  # no separating dot
    elif k < 0.58:
        n = "." + e                   # hidden file without extension
    elif k < 0.63:
        n = "." + stem + "." + e
    elif k < 0.68:
        n = e
    elif k < 0.73:
        n = stem + "." + e[1:]        # cut at the front
    elif k < 0.78:
        n = stem + "." + e[:-1]
    elif k < 0.83:
        n = stem + "." + e + rng.choice([".", "x", "~", ".bak", " "])
    elif k < 0.88:
        n = stem + ".x" + e           # longer component
    elif k < 0.92:
        n = stem + "." + e.split(".")[-1]
    elif k < 0.95:
        n = stem
    else:
        n = stem + "." + recase(rng, rng.choice(POOL)).lstrip(".")
    n = n.replace("/", "")
    return n if n not in ("", ".", "..") else n + "x"


def main(ctx):
    ctx.rule = ("random lists of extensions (one and several components, upper and lower case, with and without leading dot)"
                " and file names near their borders, for existing input files and for new output files of both modes;"
                " expected: suffix rule on the last path component; non-trivial: every question")
    ctx.build("debug")
    rng = ctx.rng
    exps = []
    root = ctx.scratch("f")
    existing = os.path.join(root, "in")
    os.mkdir(existing)
    outs = os.path.join(root, "out")
    os.mkdir(outs)
    for i in range(ctx.n(5000, 80000)):
        exts = rng.sample(POOL, rng.choice([0, 1, 1, 1, 2, 2, 3, 5]))
        n = rng.choice([1, 1, 1, 2, 3])
        kind = rng.choice(["infile", "infile", "infilev", "outfile,new", "outfile,open", "outfilev"])
        if kind.endswith("v") and not 1 <= len(exts) <= 3:
            kind = "infile" if kind[0] == "i" else "outfile,new"
        paths = []
        for k in range(n):
            f = name(rng, exts)
            if kind.startswith("in"):
                d = rng.choice([existing, existing + "/d.fa", existing + "/.e.gz"])
                os.makedirs(d, exist_ok=True)
                p = d + "/" + f
                if os.path.isdir(p):
                    continue
                with open(p, "a"):
                    pass
            else:
                d = "%s/%d%s" % (outs, i, rng.choice(["", ".fa", ".tar.gz"]))
                os.makedirs(d, exist_ok=True)
                p = d + "/" + f
            paths.append(p)
        if not paths:
            continue
        ok = [C18.ext_ok(p, exts) for p in paths]
        e = Exp()
        lst = len(paths) > 1
        t = rng.choice(["L_path", "L_str"] if lst else ["path", "str"])
        vs = kind + "".join("," + enc(x) for x in exts)
        if rng.random() < 0.8:
            e.slot("s", t, paths)
            e.deciding = e.op("vali", "s", vs)
        else:
            e.slot("s", t, [] if lst else [""])
            e.parser("P", ["app"] + sum((["--in=" + p] for p in paths), []))
            e.add("opt", "P", "s", "i", "in", vali=vs)
            e.deciding = e.op("parse", "P")
        e.tag = kind.split(",")[0] + (" empty list" if not exts else "") + " x"
        e.note = {"names": [os.path.basename(p) for p in paths], "extensions": exts, "expected": ok}
        ctx.count("expected " + ("accepted" if all(ok) else "rejected"))

        def check(r, e=e, want=all(ok), why="%r with %r" % ([os.path.basename(p) for p in paths], exts)):
            return C18.verdict(e, want, why, r)
        e.check = check
        exps.append(e)
    ctx.run(exps)
