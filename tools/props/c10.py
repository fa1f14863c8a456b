"""C10: developer misuse is reported at once, correct set-ups never are (oracle over API call histories)."""
from exp import Exp, Exc
from drv import enc
import spec as S
import values as V

OKCH = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789@_-")
RESERVED = ["h", "hh", "help", "advanced-help", "export-help", "version", "copyright"]
APPCH = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-")


class Model:
    def __init__(self, app, subs):
        self.ids = set(RESERVED)
        self.own = set()
        self.subs = list(subs)
        self.app = app
        self.list = False
        self.parsed = False

    def bad_ids(self, s, l):
        if not s and not l:
            return "both identifiers empty"
        if s and (s == "-" or s not in OKCH):
            return "invalid short identifier"
        if s and s in self.ids:
            return "short identifier used"
        if l:
            if len(l) == 1:
                return "long identifier of one character"
            if l[0] == "-" or any(c not in OKCH for c in l):
                return "invalid long identifier"
            if l in self.ids:
                return "long identifier used"
        return None

    def add(self, kind, s, l, flags, defmsg, init_true, is_list):
        """Reason of the misuse or None."""
        if self.parsed:
            return "declaration after parse"
        if kind in ("opt", "flag"):
            b = self.bad_ids(s, l)
            if b:
                return b
            if kind == "flag" and init_true:
                return "flag defaults to true"
            if kind == "flag" and defmsg:
                return "flag with default message"
            if kind == "opt" and defmsg and "r" in flags:
                return "required option with default message"
            for x in (s, l):
                if x:
                    self.ids.add(x)
                    self.own.add(x)
            return None
        if s or l:
            return "positional with identifier"
        if "a" in flags or "h" in flags:
            return "positional with visibility"
        if self.subs:
            return "positional next to subcommands"
        if self.list:
            return "positional after positional list"
        if defmsg:
            return "positional with default message"
        self.list = self.list or is_list
        return None


def rand_id(rng, m, bad):
    """(short, long)"""
    s, l = "", ""
    if not bad:
        if rng.random() < 0.7:
            s = rng.choice([c for c in sorted(OKCH) if c != "-" and c not in m.ids])
        if not s or rng.random() < 0.6:
            while True:
                l = rng.choice(S.LONGS) if rng.random() < 0.5 else "".join(
                    rng.choice(sorted(OKCH)) for _ in range(rng.randint(2, 6)))
                if l[0] != "-" and l not in m.ids:
                    break
        return s, l
    k = rng.choice(["empty", "char", "lchar", "one", "dash", "dup", "reserved", "ldup", "sdash", "byte", "lbyte"])
    good_s, good_l = rand_id(rng, m, False)
    if k == "empty":
        return "", ""
    if k == "char":
        return rng.choice("!=.,:;?+*/\\ <>\"'$%&()[]{}|^~`#"), rng.choice(["", good_l])
    if k == "lchar":
        w = list("longid")
        w.insert(rng.randint(0, 6), rng.choice("!=.,:;?+*/\\ <>\"'$%&()[]{}|^~`#"))
        return rng.choice(["", good_s]), "".join(w)
    if k == "one":
        return rng.choice(["", good_s]), rng.choice("abhZ9_@")
    if k == "dash":
        return rng.choice(["", good_s]), "-" + rng.choice(["foo", "-", "-foo", "a"])
    if k == "sdash":
        return "-", rng.choice(["", good_l])
    if k in ("byte", "lbyte"):
        b = rng.choice([x for x in range(1, 256) if chr(x) not in OKCH])
        c = bytes([b]).decode("utf-8", "surrogateescape")
        return (c, "") if k == "byte" else ("", rng.choice(["a" + c, c + "a", "ab" + c + "c", "abc" + c]))
    if k == "reserved":
        r = rng.choice(RESERVED)
        return (r, rng.choice(["", good_l])) if len(r) == 1 else (rng.choice(["", good_s]), r)
    own = sorted(m.own)
    if not own:
        return "", ""
    r = rng.choice(own)
    return (r, rng.choice(["", good_l])) if len(r) == 1 else (rng.choice(["", good_s]), r)


def history(rng, p_bad):
    e = Exp()
    subs = ["build", "search", "x"][:rng.choice([0, 0, 0, 1, 3])]
    app, badname = "app", None
    if rng.random() < 0.06 * (p_bad > 0):
        n = list(rng.choice(["app", "my-app", "A_1"]))
        n.insert(rng.randint(0, len(n)), rng.choice([" ", "/", ".", ";", "$", "ü", "\n", "\t", "'", '"', "(", "@", ":"]))
        app = rng.choice(["".join(n), "".join(n), ""])
        badname = "invalid application name"
    elif rng.random() < 0.06 * (p_bad > 0) and subs:
        subs[rng.randrange(len(subs))] = rng.choice(["", "bu ild", "a/b", "sub;", "ü", "-x\n", "@", "a.b"])
        badname = "invalid subcommand name"
    elif rng.random() < 0.2:
        app = rng.choice(["A", "9", "_", "-", "my-app_2", "a" * 60])
    m = Model(app, subs)
    npos = 0
    late_subs = bool(subs) and rng.random() < 0.4
    in_ctor = [] if late_subs else list(subs)
    args = ["--f-l-a-g"]
    e.slot("fl", "bool", ["0"])
    e.parser("P", ["PLACEHOLDER"], app=app, subs=[] if late_subs else subs)
    pline = len(e.lines) - 1
    reasons = []        # (op index, reason or None)
    if late_subs:
        m.subs = []
    i = e.add("flag", "P", "fl", "", "f-l-a-g")
    reasons.append((i, m.add("flag", "", "f-l-a-g", "-", "", False, False)))
    nslots = 0
    pos_types = []
    after_parse_ops = 0
    stop = False
    for step in range(rng.randint(1, 9)):
        bad = rng.random() < p_bad
        k = rng.choice(["opt", "opt", "flag", "flag", "pos", "pos", "text", "subs", "isset", "sub?"])
        if k == "subs":
            if npos and rng.random() < 0.1:
                reasons.append((e.op("subcmds", "P"), None))      # none at all
            if late_subs and npos:
                reasons.append((e.op("subcmds", "P", *[enc(x) for x in subs]), "subcommands next to positional"))
                stop = True
                break
            if late_subs:
                i = e.op("subcmds", "P", *[enc(x) for x in subs])
                m.subs = subs
                late_subs = False
                reasons.append((i, None))
            continue
        if k == "text":
            i = e.op(*rng.choice([("section", "P", "S", "0"), ("subsection", "P", "SS", "1"), ("line", "P", "L", "0", "0"),
                                  ("item", "P", "K", "V", "0")]))
            reasons.append((i, None))
            continue
        if k == "isset":
            if not bad:
                continue
            i = e.op("issets", "P", "f-l-a-g")
            reasons.append((i, "query before parse"))
        elif k == "sub?":
            if not bad:
                continue
            i = e.op("sub", "P", "Q")
            reasons.append((i, "sub-parser before parse"))
        else:
            typ = "bool" if k == "flag" else rng.choice(["str", "i32", "L_str", "L_i32", "color", "f64"])
            true = False
            s = l = defmsg = ""
            flags = "".join(c for c in "ahr" if rng.random() < 0.2) or "-"
            if k == "pos":
                flags = "-" if rng.random() < 0.8 else "r"
                if not bad and (m.subs or m.list or late_subs and (not p_bad or rng.random() < 0.7)):
                    continue
                if bad:
                    w = rng.choice(["id", "lid", "adv", "hid", "def", "order"])
                    if w == "id":
                        s = "q"
                    if w == "lid":
                        l = "quux"
                    if w == "adv":
                        flags = "a"
                    if w == "hid":
                        flags = "h"
                    if w == "def":
                        defmsg = "msg"
                    if late_subs:
                        continue
            else:
                if k == "opt":
                    flags = flags.replace("r", "") or "-"
                s, l = rand_id(rng, m, False)
                if k == "opt" and rng.random() < 0.3:
                    defmsg = "msg"
                if bad:
                    w = rng.choice(["ids", "ids", "ids", "sem"])
                    if w == "ids":
                        s, l = rand_id(rng, m, True)
                        if s == "h" and l in ("hh",):
                            pass
                    elif k == "flag":
                        if rng.random() < 0.5:
                            true = True
                        else:
                            defmsg = "msg"
                    else:
                        flags, defmsg = "r", "msg"
            sl = "s%d" % nslots
            nslots += 1
            init, _ = V.rand_init(rng, typ)
            if k == "flag":
                init = ["1"] if true else ["0"]
            e.slot(sl, typ, init)
            i = e.add(k, "P", sl, s, l, "desc", defmsg, flags)
            rs = m.add(k, s, l, flags, defmsg, true, typ in V.LISTS)
            reasons.append((i, rs))
            if k == "pos" and not rs:
                npos += 1
                pos_types.append(typ)
        if reasons[-1][1]:
            stop = True
            break
    fails = False
    if not stop:
        for t in pos_types:
            args.append({"str": "x", "i32": "5", "L_str": "x", "L_i32": "5", "color": "red", "f64": "1.5"}[t])
        if m.subs and not badname:
            args.append(m.subs[-1])
        if not badname and rng.random() < 0.15:    # the user makes a mistake: the parser is used up all the same
            args.insert(0, "--no-such-option-12")
            fails = True
        i = e.op("parse", "P")
        if late_subs and badname == "invalid subcommand name":
            badname = None
        reasons.append((i, "user error" if fails and not badname else badname))
        m.parsed = True
        if not badname:
            for _ in range(rng.randint(0, 4)):
                k = rng.choice(["isset ok", "isset ok", "isset unknown", "isset one", "add", "add", "again", "subs", "sub",
                                "text"])
                rs = None
                if fails and k in ("isset ok", "sub"):
                    continue
                if k == "isset ok":
                    x = rng.choice(sorted(m.own))
                    i = e.op("issetc" if len(x) == 1 else "issets", "P", enc(x))
                elif p_bad == 0 and k != "sub":
                    continue
                elif k == "isset unknown":
                    x = rng.choice(["q7", "nope", "f-l-a-", "f-l-a-gg", "Z9", "--f-l-a-g", ""])
                    if x in m.ids:
                        continue
                    i = e.op("issets", "P", enc(x))
                    rs = "query of unknown option"
                elif k == "isset one":
                    i = e.op("issets", "P", rng.choice("abf"))
                    rs = "query of one character string"
                elif k == "add":
                    what = rng.choice(["opt", "flag", "pos"])
                    e.slot("z%d" % len(e.lines), "bool", ["0"])
                    i = e.add(what, "P", "z%d" % (len(e.lines) - 1), "" if what == "pos" else "", "" if what == "pos" else
                              "new%d" % len(e.lines))
                    rs = "declaration after parse"
                elif k == "again":
                    i = e.op("parse", "P")
                    rs = "parse twice"
                elif k == "subs":
                    i = e.op("subcmds", "P", "late")
                    rs = "subcommands after parse"
                elif k == "text":
                    i = e.op(*rng.choice([("section", "P", "S", "0"), ("subsection", "P", "SS", "1"),
                                          ("line", "P", "L", "0", "0"), ("item", "P", "K", "V", "0")]))
                    rs = "text after parse"
                elif k == "sub":
                    i = e.op("sub", "P", "Q%d" % len(e.lines))
                    rs = None if m.subs else "sub-parser without subcommands"
                    if m.subs:
                        e.parsers  # the sub-parser is owned by P
                reasons.append((i, rs))
    # the command line is known now
    e.lines[pline] = " ".join(["parser", "P", enc(app), "0", str(len(in_ctor))] + [enc(x) for x in in_ctor]
                              + [enc(x) for x in ["app"] + args])
    e.note = {"reasons": reasons, "args": args}
    why = [r for _, r in reasons if r and r != "user error"]
    e.tag = why[0] if why else "correct"

    def check(r):
        bad = []
        for i, rs in reasons:
            o = r.ops.get(i)
            if o is None:
                bad.append(("operation did not return", "op %d %s" % (i, e.lines[i])))
            elif rs is None and isinstance(o, Exc):
                bad.append(("error for a correct call", "%s: %r" % (e.lines[i], o)))
            elif rs == "user error":
                if not isinstance(o, Exc) or o.base == "design":
                    bad.append(("user error not reported as such", "%s: %r" % (e.lines[i], o)))
            elif rs and not (isinstance(o, Exc) and o.base == "design"):
                bad.append(("misuse not reported: " + rs, "%s: %r" % (e.lines[i], o)))
        return bad
    e.check = check
    return e


def byte_ids(rng):
    """Every byte in every place of an identifier or name."""
    for b in range(1, 256):
        c = bytes([b]).decode("utf-8", "surrogateescape")
        for s, l in ((c, ""), ("", "ab" + c), ("", c + "ab"), ("", "a" + c + "b"), (c, "long")):
            for kind in ("opt", "flag"):
                e = Exp()
                m = Model("app", [])
                e.slot("v", "bool", ["0"])
                e.parser("P", ["app", "x"])
                i = e.add(kind, "P", "v", s, l)
                rs = m.add(kind, s, l, "-", "", False, False)
                e.tag = "byte in identifier, " + ("rejected" if rs else "accepted")

                def check(r, i=i, rs=rs, e=e):
                    o = r.ops.get(i)
                    if rs and not (isinstance(o, Exc) and o.base == "design"):
                        return [("misuse not reported: " + rs, "%s: %r" % (e.lines[i], o))]
                    if not rs and isinstance(o, Exc):
                        return [("error for a correct call", "%s: %r" % (e.lines[i], o))]
                    return []
                e.check = check
                yield e
        for where in ("app", "sub"):
            for name in (c, "a" + c, c + "a", "a" + c + "b"):
                e = Exp()
                e.slot("f", "bool", ["0"])
                if where == "app":
                    e.parser("P", ["app", "-f"], app=name)
                else:
                    e.parser("P", ["app", "-f", "good"], subs=["good", name])
                e.add("flag", "P", "f", "f")
                i = e.op("parse", "P")
                ok = all(x in APPCH for x in name)
                e.tag = "byte in %s name, %s" % (where, "accepted" if ok else "rejected")

                def check(r, i=i, ok=ok, e=e, where=where):
                    o = r.parse_outcome(i)
                    if ok and o != "ok":
                        return [("error for a correct name", "%s: %r" % (e.lines[1], o))]
                    if not ok and not (isinstance(o, Exc) and o.base == "design"):
                        return [("invalid %s name not reported" % where, "%s: %r" % (e.lines[1], o))]
                    return []
                e.check = check
                yield e


def main(ctx):
    ctx.rule = ("random histories of API calls judged call by call with a model of the documented rules: correct histories"
                " (no call may raise) and histories with one misuse (exactly that call raises a design error); every byte"
                " value in every place of identifiers and names")
    ctx.build("debug", groups=[0, 3, 4])
    rng = ctx.rng
    exps = list(byte_ids(rng))
    if ctx.tier != "thorough":
        rng.shuffle(exps)
        exps = exps[:2500] + [e for e in exps[2500:] if "rejected" not in e.tag]
    exps += [history(rng, 0.0) for _ in range(ctx.n(3000, 40000))]
    exps += [history(rng, 0.35) for _ in range(ctx.n(6000, 80000))]
    ctx.run(exps)
