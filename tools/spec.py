"""Random parser set-ups and command lines built from an intent (so that the expected outcome is known by construction)."""
from drv import enc
from exp import Exp
import values as V

SHORTS = [c for c in "abcdefgijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789@_"]  # 'h' is reserved
LONGS = ["foo", "foo-bar", "foobar", "fo", "f-o", "foo2", "foo-", "foo--bar", "bar", "ba", "bar_baz", "number", "num",
         "n-u-m", "out", "output", "output-file", "in", "input", "i1", "verbose", "ver", "versio", "versions",
         "help-me", "hel", "helpx", "no-foo", "5prime", "a@b", "X_Y", "h-", "copy", "copyrights", "export",
         "export-help2", "export-hel", "advanced", "advanced-help-x", "__", "@x", "FOO", "Foo", "oo", "version-chec",
         "threads", "thread", "th", "the-quick-brown-fox-jumps-over-the-lazy-dog", "the-quick-brown-fox-jumps-over-the-lazy-dogs",
         "x" * 120]


class Par:
    """One declared option, flag or positional option."""

    def __init__(self, kind, slot, typ, short="", long="", init=None, val=None, required=False, desc="", vali="none",
                 advanced=False, hidden=False, defmsg=""):
        self.kind, self.slot, self.type, self.short, self.long = kind, slot, typ, short, long
        self.init, self.val = init or [], val
        self.required, self.desc, self.vali = required, desc, vali
        self.advanced, self.hidden, self.defmsg = advanced, hidden, defmsg

    @property
    def is_list(self):
        return self.type in V.LISTS

    @property
    def elem(self):
        return V.elem(self.type)

    def flags(self):
        return ("a" if self.advanced else "") + ("h" if self.hidden else "") + ("r" if self.required else "") or "-"

    def ids(self):
        return [x for x in ("-" + self.short if self.short else None, "--" + self.long if self.long else None) if x]


class Spec:
    def __init__(self):
        self.pars = []       # in declaration order

    @property
    def options(self):
        return [p for p in self.pars if p.kind == "opt"]

    @property
    def flags(self):
        return [p for p in self.pars if p.kind == "flag"]

    @property
    def positionals(self):
        return [p for p in self.pars if p.kind == "pos"]

    def declare(self, exp, parser="P", order=None):
        """Adds slots and declarations; returns the indices of the declarations."""
        for p in self.pars:
            if not any(l.startswith("slot %s " % p.slot) for l in exp.lines):
                exp.slot(p.slot, p.type, p.init)
        return [exp.add(p.kind, parser, p.slot, p.short, p.long, p.desc, p.defmsg, p.flags(), p.vali)
                for p in (order or self.pars)]

    def slots(self, exp):
        for p in self.pars:
            exp.slot(p.slot, p.type, p.init)

    def decl(self, exp, parser="P", order=None):
        return [exp.add(p.kind, parser, p.slot, p.short, p.long, p.desc, p.defmsg, p.flags(), p.vali)
                for p in (order or self.pars)]

    def initial(self):
        return {p.slot: p.val for p in self.pars}


def pick_ids(rng, used, short_ok=True, long_ok=True):
    k = rng.random()
    s = l = ""
    if k < 0.7 and short_ok:
        c = [x for x in SHORTS if x not in used]
        if c:
            s = rng.choice(c)
    if k > 0.3 and long_ok:
        c = [x for x in LONGS if x not in used]
        if c:
            l = rng.choice(c)
    if not s and not l:
        s = rng.choice([x for x in SHORTS if x not in used])
    used.add(s)
    used.add(l)
    return s, l


def rand_spec(rng, n_opt=None, n_flag=None, n_pos=None, types=None, list_types=None, prefix="v", required=0.15,
              pos_list=True, used=None):
    types = types or V.SCALARS
    list_types = list_types if list_types is not None else sorted(V.LISTS)
    sp = Spec()
    used = used if used is not None else set([""])
    n_opt = rng.choice([0, 1, 1, 2, 3, 5]) if n_opt is None else n_opt
    n_flag = rng.choice([0, 1, 2, 4]) if n_flag is None else n_flag
    n_pos = rng.choice([0, 0, 1, 2, 3]) if n_pos is None else n_pos
    k = 0
    for _ in range(n_opt):
        t = rng.choice(list_types) if list_types and rng.random() < 0.35 else rng.choice(types)
        s, l = pick_ids(rng, used)
        init, val = V.rand_init(rng, t)
        sp.pars.append(Par("opt", "%s%d" % (prefix, k), t, s, l, init, val, rng.random() < required))
        k += 1
    for _ in range(n_flag):
        s, l = pick_ids(rng, used)
        sp.pars.append(Par("flag", "%s%d" % (prefix, k), "bool", s, l, ["0"], "b0"))
        k += 1
    rng.shuffle(sp.pars)
    pos = []
    for i in range(n_pos):
        last = i == n_pos - 1
        t = rng.choice(list_types) if list_types and last and pos_list and rng.random() < 0.5 else rng.choice(types)
        init, val = V.rand_init(rng, t)
        pos.append(Par("pos", "%s%d" % (prefix, k), t, "", "", init, val))
        k += 1
    # positionals may be declared anywhere between the others (their order matters)
    for i, p in enumerate(pos):
        lo = sp.pars.index(pos[i - 1]) + 1 if i else 0
        sp.pars.insert(rng.randint(lo, len(sp.pars)), p)
    return sp


def spellings(p, text, rng, only=None):
    """All (identifier, tokens) ways to write one occurrence of an option."""
    r = []
    if p.short:
        i = "-" + p.short
        r.append((i, [i, text]))
        if text:
            r.append((i, [i + "=" + text]))
            if text[0] != "=":
                r.append((i, [i + text]))
    if p.long:
        i = "--" + p.long
        r.append((i, [i, text]))
        if text:
            r.append((i, [i + "=" + text]))
    return r


class Group:
    """Tokens of a command line that belong together."""

    def __init__(self, kind, tokens, par=None, ids=(), text=None):
        self.kind, self.tokens, self.par, self.ids, self.text = kind, tokens, par, list(ids), text


class Line:
    """A valid command line with its meaning."""

    def __init__(self):
        self.groups = []      # options and flags (any order; list order matters) and positionals before the terminator
        self.after = None     # positionals after the terminator, or None without terminator
        self.expected = {}
        self.ids = set()      # identifiers written

    def argv(self, app="app"):
        r = [app]
        for g in self.groups:
            r += g.tokens
        if self.after is not None:
            r += ["--"] + self.after
        return r


def positional_ok_plain(text):
    return not text.startswith("-") or text == "-"


def interleave(rng, free, ordered_lists):
    """Random merge: free groups anywhere, each ordered list keeps its order."""
    seqs = [[g] for g in free] + [list(x) for x in ordered_lists if x]
    out = []
    total = sum(len(s) for s in seqs)
    while total:
        r = rng.randrange(total)
        for s in seqs:
            if r < len(s):
                out.append(s.pop(0))
                break
            r -= len(s)
        total -= 1
    return out


def rand_line(rng, sp, p_use=0.65, hostile=True, max_list=5, simple_clusters=False, ambiguous=True):
    """A random valid command line for the set-up (never without any argument if that would be the short help)."""
    ln = Line()
    ln.expected = sp.initial()
    free, ordered = [], []
    for p in sp.options:
        if not p.required and rng.random() > p_use:
            continue
        n = rng.randint(1, max_list) if p.is_list else 1
        texts = []
        for _ in range(n):
            while True:
                t = V.rand_text(rng, p.elem, hostile)
                if not ambiguous and t.startswith("-"):
                    continue
                break
            texts.append(t)
        gs = []
        for t in texts:
            i, toks = rng.choice(spellings(p, t, rng))
            gs.append(Group("opt", toks, p, [i], t))
            ln.ids.add(i)
        vals = [V.expect(t, p.elem) for t in texts]
        ln.expected[p.slot] = tuple(vals) if p.is_list else vals[0]
        if p.is_list:
            ordered.append(gs)
        else:
            free += gs
    # flags: each at most once, by its long identifier or within clusters
    shorts = []
    for p in sp.flags:
        if rng.random() > p_use:
            continue
        ln.expected[p.slot] = "b1"
        if p.long and (not p.short or rng.random() < 0.4):
            free.append(Group("flag", ["--" + p.long], p, ["--" + p.long]))
            ln.ids.add("--" + p.long)
        else:
            shorts.append(p)
            ln.ids.add("-" + p.short)
    rng.shuffle(shorts)
    while shorts:
        n = 1 if simple_clusters else rng.randint(1, len(shorts))
        c, shorts = shorts[:n], shorts[n:]
        free.append(Group("flag", ["-" + "".join(p.short for p in c)], c[0] if n == 1 else None,
                          ["-" + p.short for p in c]))
    # positionals
    texts = []
    for p in sp.positionals:
        n = rng.randint(1, max_list) if p.is_list else 1
        ts = [V.rand_text(rng, p.elem, hostile) for _ in range(n)]
        vals = [V.expect(t, p.elem) for t in ts]
        ln.expected[p.slot] = tuple(vals) if p.is_list else vals[0]
        texts += ts
    # split at the terminator
    cut = len(texts)
    for i, t in enumerate(texts):
        if not positional_ok_plain(t):
            cut = i
            break
    use_term = cut < len(texts) or rng.random() < 0.2
    if use_term:
        cut = rng.randint(0, cut)
        ln.after = texts[cut:]
    before = [Group("pos", [t], None, [], t) for t in texts[:cut]]
    ln.groups = interleave(rng, free, ordered + [before])
    return ln
