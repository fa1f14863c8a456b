"""C05: numbers and booleans are converted exactly or rejected."""
from exp import Exp, Exc
from drv import enc
import spec as S
import values as V

TYPES = ["bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "ld"]
LIST = {"i32": ["L_i32", "LL_i32"], "i8": ["L_i8"], "u64": ["L_u64"], "u8": ["L_u8"], "f64": ["L_f64"],
        "bool": ["L_bool"]}


def one(rng, t, text, valid, exhaustive=False):
    """Experiment giving `text` for element type t."""
    e = Exp()
    lt = rng.choice(LIST[t]) if t in LIST and rng.random() < 0.4 else t
    init, ival = V.rand_init(rng, lt)
    how = rng.choice(["sep", "long", "eq", "long-eq", "attached", "pos"])
    if text == "" and how in ("eq", "long-eq", "attached"):
        how = "sep"
    if how == "attached" and text.startswith("="):
        how = "sep"
    e.slot("v", lt, init)

    def toks(x, h):
        return {"sep": ["-n", x], "long": ["--num", x], "eq": ["-n=" + x], "long-eq": ["--num=" + x],
                "attached": ["-n" + x], "pos": [x]}[h]
    texts = [text]
    if lt != t:
        k = rng.randint(0, 3)
        good = [V.rand_text(rng, t) for _ in range(k)]
        at = rng.randint(0, k)
        texts = good[:at] + [text] + good[at:]
    av = ["app"]
    if how == "pos":
        av += ["--"] + texts
    else:
        for x in texts:
            h = how if x == text or rng.random() < 0.5 else rng.choice(["sep", "long", "long-eq"])
            av += toks(x, h)
    e.parser("P", av, c="\0" not in "".join(av) and rng.random() < 0.2)
    if how == "pos":
        e.add("pos", "P", "v")
    else:
        e.add("opt", "P", "v", "n", "num")
    i = e.op("parse", "P")
    e.tag = "%s %s" % (t, "valid" if valid else "invalid")
    if valid:
        vals = tuple(V.expect(x, t) for x in texts)
        want = vals if lt != t else vals[0]

        def check(r):
            o = r.parse_outcome(i)
            if o != "ok":
                return [("valid %s text rejected" % t, "%r: %r" % (text, o))]
            if V.canon(r.values["v"]) != want:
                return [("wrong %s value" % t, "%r: expected %r got %r" % (texts, want, r.values["v"]))]
            return []
    else:
        def check(r):
            o = r.parse_outcome(i)
            if not isinstance(o, Exc):
                return [("invalid %s text accepted" % t, "%r gave %r" % (text, r.values.get("v")))]
            if o.cls != "sharg::user_input_error":
                return [("invalid %s text: wrong error" % t, "%r: %r" % (text, o))]
            return []
    e.check = check
    e.note = {"type": lt, "text": text, "argv": av}
    return e


def main(ctx):
    ctx.rule = ("texts (valid: boundary, random, padded; invalid: out of range by one up to many digits, other characters,"
                " blanks, signs, prefixes, empty) per type, as option value in every spelling, list element or positional;"
                " expected values computed with exact integer/rational arithmetic")
    ctx.build("debug", "release0", groups=[0, 1, 2, 3, 5])
    rng = ctx.rng
    exps = []
    for _ in range(ctx.n(9000, 200000)):
        t = rng.choice(TYPES)
        if rng.random() < 0.5:
            exps.append(one(rng, t, V.rand_text(rng, t), True))
        else:
            exps.append(one(rng, t, V.invalid_number(rng, t), False))
    # all values of and around the 8 bit types
    for t in ("i8", "u8"):
        lo, hi = V.INT[t]
        for v in range(-300, 521):
            x = str(v)
            exps.append(one(rng, t, x, lo <= v <= hi))
    # every single byte, and every byte before and after a digit
    for t in ("i32", "u8", "f64", "bool"):
        for b in range(1, 256):
            c = bytes([b]).decode("utf-8", "surrogateescape")
            for text in (c, c + "1", "1" + c, "1" + c + "1"):
                import re
                if t == "bool":
                    ok = text in ("0", "1")
                elif t == "f64":
                    if "." in text or "e" in text or "E" in text or "p" in text or "P" in text:
                        continue
                    ok = re.fullmatch(r"-?[0-9]+", text) is not None
                else:
                    ok = re.fullmatch(r"-?[0-9]+" if t == "i32" else "[0-9]+", text) is not None
                    ok = ok and V.INT[t][0] <= int(text) <= V.INT[t][1]
                exps.append(one(rng, t, text, ok))
    half = len(exps) // 3
    rng.shuffle(exps)
    ctx.run(exps[:half * 2], "debug")
    ctx.run(exps[half * 2:], "release0")
