"""Random documented set-ups, what their help pages must contain, and readers for the four page formats."""
import html
import itertools
import re
from drv import enc, dec
from exp import Exp, Exc
import spec as S
import values as V

PLAIN = ["the", "value", "of", "a", "file", "name.", "to", "read", "(optional)", "see", "also:", "x,y", "e.g.", "50%", "in",
         "1.5", "[a|b]", "#1", "$HOME", "~/x", "a/b", "C++", "foo_bar", "--foo", "-x", "=", "*", "+1", "()", "@", "^", "?!"]
SPECIAL = ["<tag>", "&amp;", "a&b", "<", ">", "\"q\"", "'s", "</p>", "<!--", "&lt;", "&#65;", "\"", "x<y>z", "&&"]
FORMAT = ["\\fBbold\\fP", "\\fIital\\fP", "\\fBb\\fPx", "\\-dash", "x\\-y", "\\-\\-long"]
UNI = ["ünï", "日本", "é"]
CONTROL = [".dot", "'quote", ".SH", ".", "'", "..", ".br", "'br", ".\\\"", "\\&x"]
ODD = ["\\", "\\x", "\\f", "\\fX", "a\\", "\\\\", "\\n", "\\e"]


def plain(word):
    """What is left of a text when formatting escapes are removed (read from left to right)."""
    return re.sub(r"(?s)\\(f[BIP]|-|.)", lambda m: {"f": "", "-": "-"}.get(m.group(1)[0] if len(m.group(1)) > 1 or
                                                                    m.group(1) == "-" else "", m.group(0)), word)


class Doc:
    def __init__(self, rng, words=None, max_items=9, subs=None, maxlen=12, blanks=False, emphasis_balanced=True, meta_p=0.7,
                 types=None, file_vali=True, app=None, title_breaks=False):
        self.rng = rng
        self.n = 0
        self.words = words or (PLAIN + UNI)
        self.maxlen = maxlen
        self.title_breaks = title_breaks
        self.blanks = blanks
        self.items = []       # (kind, dict)
        self.meta = []
        self.subs = []
        self.markers = {}     # marker -> description
        used = set([""])
        r = rng.random
        self.app = rng.choice(app) if app else "app"
        if r() < meta_p:
            self.meta.append(("short_description", self.text("short_description", 5, raw=True)))
        for k in ("version", "date"):
            if r() < meta_p:
                self.meta.append((k, {"version": "%d.%d.%d" % (rng.randint(0, 9), rng.randint(0, 99), rng.randint(0, 9)),
                                      "date": self.mark("date")}[k]))
        for k, n in (("author", 4), ("email", 1), ("url", 1), ("short_copyright", 6), ("citation", 12)):
            if r() < meta_p * 0.7:
                self.meta.append((k, self.text(k, n)))
        if r() < 0.4:
            self.meta.append(("long_copyright", self.mark("long_copyright")))
        if r() < 0.4:
            self.meta.append(("man_page_title", self.text("man_page_title", 4, raw=True) if title_breaks
                                                else self.mark("man_page_title")))
        if r() < 0.3:
            self.meta.append(("man_page_section", str(rng.randint(1, 9))))
        for _ in range(rng.choice([0, 1, 2])):
            self.meta.append(("synopsis", rng.choice(["app", "./app", "app"]) + (" " + self.text("synopsis", 8)
                                                                             if r() < 0.9 else "")))
        for _ in range(rng.choice([0, 1, 2, 3])):
            self.meta.append(("description", self.text("description")))
        for _ in range(rng.choice([0, 0, 1, 2])):
            self.meta.append(("examples", self.text("example")))
        if subs or (subs is None and r() < 0.25):
            self.subs = sorted(rng.sample(["build", "search", "x", "up-date", "a_b", "Z9"], rng.randint(1, 4)))
            # as declared: in any order, some of them repeatedly
            self.declared_subs = rng.sample(self.subs, len(self.subs)) + \
                [rng.choice(self.subs) for _ in range(rng.choice([0, 0, 1, 2]))]
        types = types or V.SCALARS + sorted(V.LISTS)
        nslot = 0
        for _ in range(rng.randint(0, max_items)):
            k = rng.choice(["opt", "opt", "opt", "flag", "section", "subsection", "line", "item"])
            adv, hid = r() < 0.2, r() < 0.12
            if k in ("opt", "flag"):
                s, l = S.pick_ids(rng, used)
                t = rng.choice(types) if k == "opt" else "bool"
                init, val = V.rand_init(rng, t) if k == "opt" else (["0"], "b0")
                p = S.Par(k, "s%d" % nslot, t, s, l, init, val, k == "opt" and r() < 0.2,
                          self.text("description of %s" % k) if r() < 0.93 else "", "none", adv, hid)
                nslot += 1
                if k == "opt" and not p.required and r() < 0.2:
                    p.defmsg = self.text("default message", 3, raw=True)
                if k == "opt" and r() < 0.4:
                    p.vali = self.vali(t, file_vali)
                self.items.append((k, p))
            elif k in ("section", "subsection"):
                self.items.append((k, {"title": self.text(k, 3, raw=True), "adv": adv}))
            elif k == "line":
                self.items.append((k, {"text": self.text("line") if r() < 0.9 else "", "para": r() < 0.5, "adv": adv}))
            else:
                self.items.append((k, {"key": self.text("key", 1) if r() < 0.8 else self.text("key", 3),
                                       "text": self.text("item") if r() < 0.9 else "", "adv": adv}))
        self.positionals = []
        if not self.subs:
            npos = rng.choice([0, 0, 1, 2, 3])
            for i in range(npos):
                lst = i == npos - 1 and r() < 0.5
                t = rng.choice(sorted(V.LISTS) if lst else V.SCALARS)
                init, val = V.rand_init(rng, t)
                p = S.Par("pos", "s%d" % nslot, t, "", "", init, val, False, self.text("description of positional")
                          if r() < 0.9 else "")
                nslot += 1
                if r() < 0.3:
                    p.vali = self.vali(t, file_vali)
                self.positionals.append(p)

    def mark(self, what):
        self.n += 1
        m = "mk%dx" % self.n
        self.markers[m] = what
        return m

    def text(self, what, n=None, raw=False):
        """A text with a marker that occurs nowhere else. raw: without formatting escapes."""
        k = self.rng.randint(1, n or self.maxlen)
        words = [w for w in self.words if "\\" not in w] if raw else self.words
        w = [self.rng.choice(words) for _ in range(k - 1)]
        w.insert(self.rng.randint(0, len(w)), self.mark(what))
        if self.title_breaks and raw and what != "default message":
            return "".join(x + self.rng.choice([" ", " ", " ", "\n"]) for x in w[:-1]) + w[-1]
        if not self.blanks or raw or what == "key":
            return " ".join(w)
        r = w[0]
        for x in w[1:]:
            r += self.rng.choice([" ", " ", "  ", "\t", "\n", "\n", " \n "]) + x
        return r

    def vali(self, t, file_vali):
        rng = self.rng
        e = V.elem(t)
        if e in V.INT:
            lo, hi = sorted(V.rand_int(rng, *V.INT[e]) for _ in range(2))
            v = "range,%d,%d" % (lo, hi)
            if rng.random() < 0.4:
                v = "list," + ",".join(str(V.rand_int(rng, *V.INT[e])) for _ in range(rng.randint(1, 4)))
            return v
        if e == "str":
            v = rng.choice(["regex," + enc("a(b|c)*"), "list,x,yy,z", "regex," + enc("[0-9]+")])
            if file_vali and rng.random() < 0.3 and t in ("str", "L_str"):
                v = rng.choice(["infile,fa,fq.gz", "infile", "outfile,new,sam", "outfile,open", "indir", "outdir"])
            if rng.random() < 0.3:
                v += "|" + rng.choice(["regex," + enc(".*"), "list,q"])
            return v
        if e == "path" and file_vali:
            return rng.choice(["infile,fa,fq.gz", "infile", "outfile,new,sam", "outfile,open", "indir", "outdir"])
        return "none"

    # -- the program
    def program(self, args, upd=0, solo=True, order=None, width=None, tty_in="", which="ioe"):
        e = Exp(solo=solo)
        if width is not None:
            e.op("tty", width, enc(tty_in), which)
        self.vmsg = {}
        for k, p in self.items:
            if k in ("opt", "flag"):
                e.slot(p.slot, p.type, p.init)
        for p in self.positionals:
            e.slot(p.slot, p.type, p.init)
        for p in [p for k, p in self.items if k == "opt"] + self.positionals:
            if p.vali != "none":
                self.vmsg[p.slot] = e.op("vmsg", p.slot, p.vali)
        e.parser("P", ["app"] + args, upd=upd, subs=self.declared_subs if self.subs else [])
        if self.app != "app":
            e.op("info", "P", "app_name", enc(self.app))
        for k, v in self.meta:
            e.op("info", "P", k, enc(v))
        pos = list(self.positionals)
        for k, p in self.items:
            if pos and self.rng.random() < 0.3:
                q = pos.pop(0)
                e.add("pos", "P", q.slot, desc=q.desc, vali=q.vali)
            if k in ("opt", "flag"):
                e.add(k, "P", p.slot, p.short, p.long, p.desc, p.defmsg, p.flags(), p.vali)
            elif k in ("section", "subsection"):
                e.op(k, "P", enc(p["title"]), int(p["adv"]))
            elif k == "line":
                e.op("line", "P", enc(p["text"]), int(p["para"]), int(p["adv"]))
            else:
                e.op("item", "P", enc(p["key"]), enc(p["text"]), int(p["adv"]))
        for q in pos:
            e.add("pos", "P", q.slot, desc=q.desc, vali=q.vali)
        e.parse_op = e.op("parse", "P")
        return e

    # -- what must be on the page
    def visible(self, adv):
        r = []
        for k, p in self.items:
            a = p.advanced if k in ("opt", "flag") else p["adv"]
            h = p.hidden if k in ("opt", "flag") else False
            if not h and (adv or not a):
                r.append((k, p))
        return r

    def entry(self, p, msg, number=None):
        """(term, [alternatives of the text]) of an option, flag or positional."""
        if p.kind == "pos":
            term = "ARGUMENT-%d" % number
        else:
            term = ", ".join(p.ids())
        if p.kind != "flag":
            tn = {"color": "userns::color", "shape": "thirdparty::shape", "point": "userns::point", "base": "userns::base"}.get(
                V.elem(p.type), V.TYPENAME.get(V.elem(p.type)))
            term += " (List of %s)" % tn if p.is_list else " (%s)" % tn
        if p.kind == "flag":
            return term, [p.desc]
        alts = [p.desc]
        if p.kind == "pos":
            if p.is_list:
                alts = [p.desc + " Default: " + d for d in defaults(p)]
        elif p.defmsg:
            d = quoted(p.defmsg) if p.type in ("str", "path") else p.defmsg
            alts = [p.desc + " Default: " + d]
        elif not p.required:
            alts = [p.desc + " Default: " + d for d in defaults(p)]
        if msg:
            alts = [a + ". " + msg for a in alts]
        return term, alts


def quoted(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def one_default(text, canon, t):
    if t in ("str", "path"):
        return [quoted(text)]
    if t in V.ENUMS:
        return sorted(n for n, v in V.ENUMS[t].items() if "e%d" % v == canon)
    return [text]


def defaults(p):
    """Possible texts of the default."""
    if not p.is_list:
        return one_default(p.init[0] if p.init else "", p.val, p.type)
    parts = [one_default(x, c, p.elem) for x, c in zip(p.init, p.val)]
    return ["[" + ", ".join(c) + "]" for c in itertools.product(*parts)]


# -- readers: page -> list of words (without markup)

ANSI = re.compile("\x1b\\[[0-9;]*m")


def words_help(out):
    return ANSI.sub("", out).split()


def man_text(line):
    return plain(line.replace("\\fR", "\\fP").replace("\\&", ""))


def words_man(out):
    """Words of the page; the .TH line is left out."""
    w = []
    for l in out.split("\n"):
        if re.match(r"\.(SH|SS)( |$)", l):
            w += man_text(l[3:]).split()
        elif l.startswith(".") or l.startswith("'"):
            continue
        else:
            w += man_text(l).split()
    return w


def words_html(out):
    out = re.sub(r"(?s)<head>.*?</head>", "", out)
    out = re.sub(r"<!DOCTYPE[^>]*>", "", out)
    return html.unescape(re.sub(r"<[^<>]*>", "", out)).split()
