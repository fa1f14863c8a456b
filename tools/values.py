"""Value types: texts a user may write, and the value each stands for (computed here, independent of the library)."""
from fractions import Fraction
import re
from drv import enc

INT = {"i8": (-2**7, 2**7 - 1), "u8": (0, 2**8 - 1), "i16": (-2**15, 2**15 - 1), "u16": (0, 2**16 - 1),
       "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1)}
FLT = {"f32": (24, -126, 127), "f64": (53, -1022, 1023), "ld": (64, -16382, 16383)}
COLOR = {"red": 3, "r": 3, "green": 1, "light green": 1, "-g": 1, "blue": 2, "3": 2, "": 2}
SHAPE = {"circle": 0, "round": 0, "square": 1, "Square": 1}
LISTS = {"L_str": "str", "L_i32": "i32", "L_i8": "i8", "L_u64": "u64", "L_u8": "u8", "L_f64": "f64", "L_bool": "bool",
         "L_path": "path", "L_color": "color", "L_point": "point", "L_base": "base", "D_str": "str", "LL_i32": "i32"}
SCALARS = ["str", "path", "bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "ld", "color",
           "shape", "point", "base"]
ENUMS = {"color": COLOR, "shape": SHAPE}
TYPENAME = {"i8": "signed 8 bit integer", "u8": "unsigned 8 bit integer", "i16": "signed 16 bit integer",
            "u16": "unsigned 16 bit integer", "i32": "signed 32 bit integer", "u32": "unsigned 32 bit integer",
            "i64": "signed 64 bit integer", "u64": "unsigned 64 bit integer", "f32": "float", "f64": "double",
            "bool": "bool", "str": "std::string", "path": "std::filesystem::path", "ld": "long double"}


def elem(t):
    return LISTS.get(t, t)


def frac(text):
    """Exact value of a decimal text."""
    m = re.fullmatch(r"(-?)(\d*)(?:\.(\d*))?(?:[eE]([+-]?\d+))?", text)
    s, i, f, e = m.groups()
    f = f or ""
    v = Fraction(int((i + f) or "0")) * Fraction(10) ** (int(e or 0) - len(f))
    return -v if s else v


def to_float(v, t):
    """Nearest value of the type (ties to even) as Fraction; None if out of range."""
    p, emin, emax = FLT[t]
    if v == 0:
        return v
    a = abs(v)
    # 2^e <= a < 2^(e+1)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** e > a:
        e -= 1
    elif Fraction(2) ** (e + 1) <= a:
        e += 1
    q = max(e, emin) - (p - 1)
    scaled = a / Fraction(2) ** q
    n = scaled.numerator // scaled.denominator
    r = scaled - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n % 2 == 1):
        n += 1
    res = n * Fraction(2) ** q
    if res >= Fraction(2) ** (emax + 1):
        return None
    return res if v > 0 else -res


def hexfloat(s):
    """Value of a %La text."""
    m = re.fullmatch(r"(-?)0x([0-9a-f]+)(?:\.([0-9a-f]*))?p([+-]\d+)", s)
    if not m:
        return s
    sg, i, f, e = m.groups()
    f = f or ""
    v = Fraction(int(i + f, 16)) * Fraction(2) ** (int(e) - 4 * len(f))
    return -v if sg else v


def canon(dump):
    """Canonical form of a dumped value (exact floats)."""
    if dump is None:
        return None
    if dump.startswith("["):
        return tuple(canon(x) for x in dump[1:-1].split(",")[:-1])
    if dump.startswith("f"):
        return ("f", hexfloat(dump[1:]))
    return dump


def expect(text, t):
    """Canonical value of a valid text of a scalar type."""
    if t in INT:
        return "i%d" % int(text)
    if t in FLT:
        return ("f", to_float(frac(text), t))
    if t == "bool":
        return "b1" if text in ("1", "true") else "b0"
    if t in ("str", "path"):
        return "s" + enc(text)
    if t in ENUMS:
        return "e%d" % ENUMS[t][text]
    if t == "point":
        x, y = text.split(":")
        return "p%d:%d" % (int(x), int(y))
    if t == "base":
        return "n" + text
    raise KeyError(t)


WORDS = ["foo", "bar", "x", "file.txt", "a b", "ä€", "=", "==x", "a=b", "--help", "-h", "--", "-", "-5", "--foo", "'q'",
         '"q"', '"', "\\", "a\\ b", "$HOME", "*", "%s%n", "\t", " lead", "trail ", "new\nline", "/dev/null", "./x/../y",
         "C:\\d", "[1,2]", ",", ";", "a,b", "0", "1", "true", "--version", "--export-help=man", "-abc", "@", "~", "\x7f",
         "\xff", "日本語", "\x01", "\x1b", "\x1f", "\n", " "]


def rand_str(rng, hostile=True):
    k = rng.random()
    if hostile and k < 0.45:
        return rng.choice(WORDS)
    if k < 0.5:
        return ""
    n = rng.choice([1, 1, 2, 3, 5, 8, 17, 40])
    alpha = "abcXYZ019" if k < 0.8 else "ab-=_ .:/'\"\\\t@%,é"
    return "".join(rng.choice(alpha) for _ in range(n))


def rand_int(rng, lo, hi):
    k = rng.random()
    if k < 0.35:
        return rng.choice([lo, hi, lo + 1, hi - 1, 0, 1, max(lo, -1)])
    if k < 0.6:
        return max(lo, min(hi, rng.randint(-100, 100)))
    if k < 0.8:
        b = rng.randint(0, 64)
        return max(lo, min(hi, rng.choice([1, -1]) * (2 ** b + rng.randint(-2, 2))))
    return rng.randint(lo, hi)


def rand_float_text(rng, t):
    p, emin, emax = FLT[t]
    dec = {"f32": 37, "f64": 300, "ld": 4900}[t]
    while True:
        k = rng.random()
        if k < 0.3:
            s = "%d.%d" % (rng.randint(0, 10 ** rng.randint(0, 12)), rng.randint(0, 10 ** rng.randint(1, 18)))
        elif k < 0.5:
            s = str(rng.randint(0, 10 ** rng.randint(1, 30)))
        elif k < 0.85:
            s = "%d.%de%s%d" % (rng.randint(0, 9), rng.randint(0, 10 ** 18), rng.choice(["", "-", "+"]),
                                rng.randint(0, dec))
        else:
            s = rng.choice(["0", "0.0", "1", "0.1", "0.5", "1e0", "1E2", "16777217", "9007199254740993", "0.3", "1e10",
                            "123456789012345678901234567890"])
        if rng.random() < 0.3:
            s = "-" + s
        v = frac(s)
        r = to_float(v, t)
        if r is None or (v != 0 and abs(v) < Fraction(2) ** (emin + 1)):
            continue
        return s


def rand_text(rng, t, hostile=True):
    """A valid text for scalar type t."""
    if t in INT:
        v = rand_int(rng, *INT[t])
        s = str(abs(v))
        if rng.random() < 0.1:
            s = "0" * rng.randint(1, 5) + s
        if v < 0 or (v == 0 and INT[t][0] < 0 and rng.random() < 0.1):
            s = "-" + s
        return s
    if t in FLT:
        return rand_float_text(rng, t)
    if t == "bool":
        return rng.choice(["0", "1", "true", "false"])
    if t in ("str", "path"):
        return rand_str(rng, hostile)
    if t in ENUMS:
        return rng.choice(sorted(ENUMS[t]))
    if t == "point":
        return "%d:%d" % (rng.randint(-99, 99), rng.randint(-99, 99))
    if t == "base":
        return rng.choice("ACGTN")
    raise KeyError(t)


def rand_init(rng, t):
    """(texts for the slot op, canonical value) of an initial value; enumerations are given by number."""
    if t in LISTS:
        e = LISTS[t]
        xs = [rand_init(rng, e) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
        return [x[0][0] for x in xs], tuple(x[1] for x in xs)
    if t in ENUMS:
        v = rng.choice(sorted(set(ENUMS[t].values())))
        return [str(v)], "e%d" % v
    if t == "bool":
        b = rng.choice(["0", "1"])
        return [b], "b" + b
    if t in FLT:
        s = rng.choice(["0", "1.5", "-2.25", "100", "0.125"])
        return [s], ("f", frac(s))
    if t == "path":
        s = rng.choice(["", "foo", "a b", "/x/y.z", "q\"q"])
        return [s], "s" + enc(s)
    if t == "str":
        s = rng.choice(["", "foo", "a b", "-x", "dflt\"q", "ü"])
        return [s], "s" + enc(s)
    if t in INT:
        v = rng.choice([0, 1, 7, 42, INT[t][0], INT[t][1]])
        return [str(v)], "i%d" % v
    s = rand_text(rng, t, False)
    return [s], expect(s, t)


def typename(t):
    return TYPENAME.get(elem(t))


def invalid_number(rng, t):
    """A text that is not a number of arithmetic type t."""
    if t == "bool":
        return rng.choice(["1\0", "true\0x", "0\0", "", "2", "-1", "TRUE", "True", "yes", "no", "on", "t", "f", "truee", "tru", "00", "01", "10",
                           " 1", "1 ", "+1", "-0", "0.0", "fals", "1true", "true1", "11", "1\n", "T", "false ", "0x1"])
    if t in INT:
        lo, hi = INT[t]
        k = rng.random()
        if k < 0.45:
            w = hi - lo + 1
            return str(rng.choice([hi + 1, lo - 1, hi + 2, lo - 2, hi + w, lo - w, hi * 10, hi * 10 + 9, 2 * w, w + 1,
                                   2 ** 64, 2 ** 64 + 5, -2 ** 63 - 1, 2 ** 128, 10 ** 50, hi + rng.randint(1, w),
                                   lo - rng.randint(1, w)]))
        good = rand_text(rng, t)
        if rng.random() < 0.06:     # the text does not end at a NUL
            return good + "\0" + rng.choice(["", "x", "5", " ", "\0"])
        bad = rng.choice([good + "x", good + " ", " " + good, "+" + good.lstrip("-"), "", "0x" + good.lstrip("-"),
                          good + ".0", good + "e1", good + ".", "--" + good, "-", "+", " ", "a", good + "\n", good + "\t",
                          good + ",1", "1 2", "٣", good + "L", good + "u", "1e3", "inf", "nan", "true", "1_000", "-+1",
                          "- 1", "0b1", "O", good + "-", "1'000", "−1", good + "\r"])
        if lo == 0 and rng.random() < 0.3:
            bad = rng.choice(["-1", "-0", "-5", "-00", "-255", str(-rng.randint(1, 2 ** 64))])
        if re.fullmatch(r"-?\d+", bad) and lo <= int(bad) <= hi and not (lo == 0 and bad.startswith("-")):
            return bad + "x"
        return bad
    if rng.random() < 0.04:
        return rand_float_text(rng, t) + "\0" + rng.choice(["", "x", "5", "\0"])
    over = {"f32": ["1e39", "-1e39", "3.5e38", "1e400"], "f64": ["1e309", "-1e309", "1.8e308", "1e5000"],
            "ld": ["1e4933", "-1e4933", "1e10000"]}[t]
    if rng.random() < 0.3:
        return rng.choice(over)
    good = rand_float_text(rng, t)
    return rng.choice([good + "x", good + " ", " " + good, "+" + good.lstrip("-"), "", good + "e", "1.2.3", "e5", "a", "-",
                       "+", "--1", "0x1p3", good + "f", "1,5", good + "\n", "1 2", "true", "1e1.5", ".", "-.", "1..2",
                       "0x10", good + "e1e1", "- 1", good + "\t"])


def invalid_text(rng, t):
    """A text invalid for the scalar type, or None if every text is valid."""
    if t in INT or t in FLT or t == "bool":
        return invalid_number(rng, t)
    if t in ENUMS:
        names = ENUMS[t]
        while True:
            s = rng.choice([rng.choice(sorted(names)) + "x", "x", rng.choice(sorted(names))[:-1],
                            rng.choice(sorted(names)).upper(), " " + rng.choice(sorted(names)), "1", "2", "0", "4",
                            rng.choice(sorted(names)) + " ", "lightgreen", "light", "<UNKNOWN_VALUE>", "Red"])
            if s not in names:
                return s
    if t == "point":
        return rng.choice(["1", "1:", "1;2", "x", "1:2x", "1:2 ", "", "1:2:3", ":", "a:b", "1:2 x", "1:2\n", "1:2  ", "1:2 3"])
    if t == "base":
        return rng.choice(["AA", "A ", "X", "", "A1", "a", "C\n", "GATTACA", "T ,", "N\0"])
    return None
