"""C29: the message of a rejection names the culprit, the expected type or range, the available subcommands."""
import re
import sys
from fractions import Fraction
from exp import Exp, Exc
from drv import enc
import spec as S
import values as V
from props import c03, c08

sys.set_int_max_str_digits(0)
LIMIT = re.compile(r"\[(-?[0-9.einfa+]+), ?(-?[0-9.einfa+]+)\]")


def has_id(msg, i):
    """The identifier as declared, not as part of a longer one."""
    return re.search(r"(?<![-\w@])" + re.escape(i) + r"(?![-\w@])", msg) is not None


def float_max(t):
    m, e = {"f32": (24, 127), "f64": (53, 1023), "ld": (64, 16383)}[t]
    return (2 - Fraction(1, 2 ** (m - 1))) * 2 ** e


def limits_ok(t, a, b):
    try:
        a, b = Fraction(a), Fraction(b)
    except ValueError:
        return False
    if t in V.INT:
        return (a, b) == V.INT[t]
    if t in V.FLT:
        return (a, b) == (-float_max(t), float_max(t))
    return False


def conversion(msg, t, text):
    """Problems of the message of a failed conversion of `text` to element type t."""
    bad = []
    if "\0" in text:     # what() ends at a NUL
        return bad
    if text not in msg:
        bad.append(("conversion error without the rejected value", "%r not in %r" % (text, msg)))
    if t in V.ENUMS:
        m = re.search(r"\[([^\[\]]*)\][^\[\]]*$", msg)
        names = sorted(x.strip() for x in m.group(1).split(",")) if m else None
        if names != sorted(V.ENUMS[t]):
            bad.append(("conversion error of an enumeration without the accepted names", "%r: %r" % (sorted(V.ENUMS[t]), msg)))
        return bad
    ranges = LIMIT.findall(msg)
    if V.typename(t) and V.typename(t) in msg:
        return bad
    if t in V.INT or t in V.FLT:
        if not ranges:
            bad.append(("conversion error without type or range", msg))
        elif not any(limits_ok(t, a, b) for a, b in ranges):
            bad.append(("conversion error with wrong limits of %s" % t, "%s in %r" % (ranges, msg)))
    elif V.typename(t):
        bad.append(("conversion error without the expected type", "%s not in %r" % (V.typename(t), msg)))
    return bad


def shape(o, cls):
    if not isinstance(o, Exc) or (cls and o.cls != cls and o.cls not in (cls if isinstance(cls, tuple) else ())):
        return [("mistake not rejected as expected", "expected %s, got %r" % (cls, o))]
    if not o.what.strip():
        return [("empty message", "%r" % (o,))]
    return []


def mistake(rng):
    e, sp, ln, m, i = c03.make(rng)
    kind, cls, culprits, detail = m

    def check(r):
        o = r.parse_outcome(i)
        bad = shape(o, cls)
        if bad:
            return bad
        msg = o.what
        if kind in ("unknown long", "unknown long with value", "flag with value"):
            if not has_id(msg, culprits[0]):
                bad.append(("message does not name the unknown argument", "%r: %r" % (culprits, msg)))
        elif kind == "unknown short" and any(p.short and p.short in detail[2:] for p in sp.flags):
            pass    # may be read as a cluster that repeats a flag, a second mistake
        elif kind in ("unknown short", "cluster with unknown letter"):
            if not re.search(r"(?<![-\w@])-" + re.escape(culprits[0]), msg) and ln_token(detail) not in msg:
                bad.append(("message does not name the unknown letter", "%r: %r" % (culprits, msg)))
        elif kind.startswith("given twice"):
            if not any(has_id(msg, c) for c in culprits):
                bad.append(("message does not name the repeated option", "%r: %r" % (culprits, msg)))
        elif kind == "required option missing":
            if not all(has_id(msg, c) for c in culprits):
                bad.append(("message does not name the missing option", "%r: %r" % (culprits, msg)))
        elif kind in ("empty value after =", "option without value"):
            if not has_id(msg, culprits[0]):
                bad.append(("message does not name the option without value", "%r: %r" % (culprits, msg)))
        elif kind == "invalid value":
            p, text, used = detail
            if p.elem not in V.ENUMS and not has_id(msg, used):
                bad.append(("message does not name the option with the wrong value", "%r: %r" % (used, msg)))
            bad += conversion(msg, p.elem, text)
        return bad
    e.check = check
    return e


def ln_token(t):
    return t if isinstance(t, str) else "\0"


TYPES = ["bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "ld", "color", "point", "fruit", "base", "base"]


def convert(rng):
    """A wrong value of any type, in an option, an option of a list, or a positional option."""
    e = Exp()
    while True:
        t = rng.choice(TYPES + ["i8", "u8"])
        lt = rng.choice([x for x in V.LISTS if V.elem(x) == t] or [t]) if rng.random() < 0.4 else t
        text = V.invalid_text(rng, t) if t in TYPES and (t in V.INT or t in V.FLT or t in V.ENUMS or t in ("bool", "point", "base")) else None
        if text is not None and "\0" not in text:
            break
    overflow = None
    if (t in V.INT or t in V.FLT) and rng.random() < 0.5:
        if t in V.INT:
            lo, hi = V.INT[t]
            text = overflow = str(rng.choice([hi + 1, hi + rng.randint(1, 10 ** 6), hi * 10, 10 ** 40] +
                                             ([lo - 1, lo * 10, -10 ** 40] if lo else [])))
        else:
            text = overflow = {"f32": "1e39", "f64": "-1e309", "ld": "1e5000"}[t]
    how = rng.choice(["sep", "long", "eq", "long-eq", "pos"])
    if not text and how in ("eq", "long-eq"):
        how = "sep"
    init, _ = V.rand_init(rng, lt)
    e.slot("v", lt, init)
    e.slot("w", "str", ["x"])
    n = rng.choice([0, 0, 1, 3])
    good, after = [], []
    if lt != t:
        good = [V.rand_text(rng, t) for _ in range(n)]
        after = [V.rand_text(rng, t) for _ in range(rng.choice([0, 1, 2]))]
    av = ["app"]
    if how == "pos":
        lead = rng.randint(0, 3)
        trail = rng.choice([0, 0, 1, 3])
        av += ["--"] + ["w%d" % k for k in range(lead)] + good + [text] + after
        if lt == t:
            av += ["t%d" % k for k in range(trail)]
    else:
        for g in good:
            av += rng.choice([["-o", g], ["--opt", g]])
        av += {"sep": ["-o", text], "long": ["--opt", text], "eq": ["-o=" + text], "long-eq": ["--opt=" + text]}[how]
        for g in after:     # under the same name: the names are read one after the other
            av += ["-o" if how in ("sep", "eq") else "--opt", g]
    ident = "-o" if how in ("sep", "eq") else "--opt"
    e.parser("P", av)
    if how == "pos":
        for k in range(lead):
            e.add("pos", "P", "w")
        e.add("pos", "P", "v")
        if lt == t:
            for k in range(trail):
                e.add("pos", "P", "w")
    else:
        e.add("opt", "P", "w", "p", "option")
        e.add("opt", "P", "v", "o", "opt")
        e.add("opt", "P", "w", "q", "opt2")
    i = e.op("parse", "P")
    e.tag = "conversion of %s%s" % (t, ", out of range" if overflow else "")
    e.note = {"argv": av, "text": text}

    def check(r):
        o = r.parse_outcome(i)
        bad = shape(o, c03.USER)
        if bad:
            return bad
        msg = o.what
        bad += conversion(msg, t, text)
        if t not in V.ENUMS:
            if how == "pos":
                k = re.search(r"positional[ -]option *(\d+)", msg)
                if not k or int(k.group(1)) not in (lead + 1, lead + len(good) + 1):
                    bad.append(("message does not name the positional option", "position %d: %r" % (lead + 1, msg)))
            elif not has_id(msg, ident):
                bad.append(("message does not name the option with the wrong value", "%r: %r" % (ident, msg)))
        if overflow and t in V.INT:
            if not any(limits_ok(t, a, b) for a, b in LIMIT.findall(msg)):
                bad.append(("no limits for a number out of range of %s" % t, msg))
        return bad
    e.check = check
    return e


def rejected(rng):
    """A value a validator rejects."""
    e = Exp()
    while True:
        lt = rng.choice(["i32", "u8", "i64", "str", "str", "color", "f64", "L_i32", "L_str", "i16"])
        t = V.elem(lt)
        link, acc, hints = c08.link(rng, t, 0)
        own = None
        if rng.random() < 0.15:     # a validator of the developer, throwing what it likes
            own = rng.choice(["validation", "runtime", "logic", "badalloc"])
            link, acc, hints = "probe,@ID@.p,%s" % own, lambda x: False, None
        texts = [c08.candidate(rng, t, [hints] if hints is not None else []) for _ in range(rng.choice([1, 2, 3]) if lt != t else 1)]
        vals = [(x, V.expect(x, t)) for x in texts]
        badv = [v for v in vals if not acc(v)]
        if link.startswith(("xrange,f64", "xlist,f64")):    # shows the value as a double
            continue
        if badv and not any("\0" in x for x in texts):
            break
    pos = rng.random() < 0.3
    short, long = rng.choice([("o", "opt"), ("o", ""), ("", "opt")])
    init, _ = V.rand_init(rng, lt)
    e.slot("v", lt, init)
    e.slot("w", "str", ["x"])
    av = ["app"]
    lead = 0
    if pos:
        lead = rng.randint(0, 2)
        trail = rng.choice([0, 0, 1, 3]) if lt == t else 0
        av += ["--"] + ["w"] * lead + texts + ["t"] * trail
    else:
        for x in texts:
            av += [rng.choice((["-" + short] if short else []) + (["--" + long] if long else [])), x]
    e.parser("P", av)
    if pos:
        for _ in range(lead):
            e.add("pos", "P", "w")
        e.add("pos", "P", "v", vali=link)
        for _ in range(trail):
            e.add("pos", "P", "w")
    else:
        e.add("opt", "P", "w", "p", "opt-b")
        e.add("opt", "P", "v", short, long, vali=link)
    i = e.op("parse", "P")
    what = link.split(",")[0]
    e.tag = "rejected by " + what
    e.note = {"argv": av, "link": link}

    def check(r):
        o = r.parse_outcome(i)
        bad = shape(o, "sharg::validation_error")
        if bad:
            return bad
        msg = o.what
        if pos:
            k = re.search(r"positional[ -]option *(\d+)", msg)
            if not k or int(k.group(1)) not in (lead + 1, lead + len(texts), lead + len(texts) + 1):
                bad.append(("message does not name the positional option", msg))
        else:
            for d in (["-" + short] if short else []) + (["--" + long] if long else []):
                if not has_id(msg, d):
                    bad.append(("message does not name the option with the rejected value", "%r: %r" % (d, msg)))
        if own and own != "badalloc" and "probe " not in msg:
            bad.append(("message does not contain what the validator said", msg))
        if own:
            return bad
        if t in V.INT and not any(re.search(r"(?<!\d)" + re.escape(v[1][1:]) + r"(?!\d)", msg) for v in badv):
            bad.append(("message does not show the rejected value", "%r: %r" % (badv, msg)))
        if t == "str" and not any(v[0] in msg for v in badv):
            bad.append(("message does not show the rejected value", "%r: %r" % (badv, msg)))
        if what == "range" and t in V.INT:
            lo, hi = (Fraction(x) for x in link.split(",")[1:3])
            if not any((Fraction(a), Fraction(b)) == (lo, hi) for a, b in LIMIT.findall(msg)):
                bad.append(("message does not show the range of the validator", "[%s,%s]: %r" % (lo, hi, msg)))
        return bad
    e.check = check
    return e


def files(rng):
    """Paths that do not exist or have a wrong extension."""
    e = Exp()
    name = rng.choice(["/nonexistent/", "missing/dir/", "./"]) + rng.choice(["f", "data.txt", "a b.fa", "reads.fastq.gz", "-x.fa", "ü"])
    link = rng.choice(["infile", "infile,txt,fa", "indir", "regex," + enc("a{50}")])
    e.slot("v", "str" if "regex" in link else "path", ["p"])
    e.slot("w", "str", ["x"])
    e.parser("P", ["app", rng.choice(["-i", "--input"]), name])
    e.add("opt", "P", "v", "i", "input", vali=link)
    e.add("opt", "P", "w", "j", "input2")
    i = e.op("parse", "P")
    e.tag = "rejected path"
    e.note = {"path": name, "link": link}

    def check(r):
        o = r.parse_outcome(i)
        bad = shape(o, "sharg::validation_error")
        if bad:
            return bad
        if not has_id(o.what, "-i") or not has_id(o.what, "--input"):
            bad.append(("message does not name the option with the rejected path", o.what))
        if name not in o.what:
            bad.append(("message does not name the rejected path", o.what))
        return bad
    e.check = check
    return e


def subcommand(rng):
    e = Exp()
    subs = rng.sample(["build", "search", "s", "build-index", "x_y", "Build", "b", "update_index", "0", "A-"], rng.randint(1, 6))
    w = rng.choice([x for x in [rng.choice(subs) + "x", rng.choice(subs)[:-1], "sub", "foo bar", rng.choice(subs).swapcase(), "5", "seek", ""]
                    if x not in subs])
    e.slot("f", "bool", ["0"])
    av = ["app"] + rng.choice([[], ["-f"]]) + [w] + rng.choice([[], ["x"], [subs[0]], ["--help"]])
    e.parser("P", av, subs=subs)
    e.add("flag", "P", "f", "f", "flag")
    i = e.op("parse", "P")
    e.tag = "unknown subcommand"
    e.note = {"argv": av, "subs": subs}

    def check(r):
        o = r.parse_outcome(i)
        bad = shape(o, c03.USER)
        if bad:
            return bad
        missing = [s for s in subs if not re.search(r"(?<![\w-])" + re.escape(s) + r"(?![\w-])", o.what)]
        if missing:
            bad.append(("message does not list all subcommands", "%s missing in %r" % (missing, o.what)))
        return bad
    e.check = check
    return e


def special(rng):
    """Wrong values of the built-in options."""
    e = Exp()
    ident, av = rng.choice([("--export-help", ["--export-help=xyz"]), ("--export-help", ["--export-help", "pdf"]),
                            ("--export-help", ["--export-help", "HTML"]), ("--export-help", ["--export-help"]),
                            ("--export-help", ["--export-help="]),
                            ("--version-check", ["--version-check", "maybe"]), ("--version-check", ["--version-check", "TRUE"]),
                            ("--version-check", ["--version-check", "2"]), ("--version-check", ["--version-check"])])
    e.slot("v", "str", ["x"])
    e.parser("P", ["app"] + rng.choice([[], ["-v", "5"]]) + av)
    e.add("opt", "P", "v", "v", "val")
    i = e.op("parse", "P")
    e.tag = "built-in option"
    e.note = {"argv": av}

    def check(r):
        o = r.parse_outcome(i)
        if not isinstance(o, Exc):
            return [("mistake not rejected as expected", "%r" % (o,))]
        if not has_id(o.what, ident):
            return [("message does not name the built-in option", "%s: %r" % (ident, o))]
        return []
    e.check = check
    return e


GEN = [(mistake, 6), (convert, 5), (rejected, 4), (files, 1), (subcommand, 2), (special, 0.3)]


def main(ctx):
    ctx.rule = ("command lines with exactly one mistake; the identifier, value, type name or limits, accepted names and subcommands"
                " the message must show are known from how the line was made; non-trivial: every case is rejected")
    ctx.build("debug")
    gens, w = zip(*GEN)
    ctx.run([ctx.rng.choices(gens, w)[0](ctx.rng) for _ in range(ctx.n(9000, 150000))])
