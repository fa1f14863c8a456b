"""C14: every help form lists exactly the visible interface."""
import re
from drv import dec
from exp import Exc, run_exps
import doc as D

GAP = None
MODES = [("-h", "help"), ("-hh", "help"), ("--export-help=man", "man"), ("--export-help=html", "html"), ("", "short")]
WORDS = D.PLAIN + D.UNI + D.SPECIAL + D.FORMAT + [".dot", "'quote"]


class Chunk:
    """Words that must follow each other. kind: what it is (layout), head: number of words of a term."""

    def __init__(self, alts, ci, kind, head):
        self.alts, self.ci, self.kind, self.head = alts, ci, kind, head


def expected(doc, mode, adv, vm):
    """List of chunks and GAPs (anything may come in between)."""
    meta = {}
    for k, v in doc.meta:
        meta.setdefault(k, []).append(v)
    r = []

    def add(*alts, ci=False, kind=None, head=""):
        r.append(Chunk([D.plain(a).split() for a in alts], ci, kind, len(D.plain(head).split())))
        r[-1].escapes = any("\\" in a for a in alts)

    def gap():
        if not r or r[-1] is not GAP:
            r.append(GAP)
    if "short_description" in meta:
        gap()
        add(meta["short_description"][0])
    gap()
    for s in meta.get("synopsis", []):
        add(s, kind="synopsis")
    if mode == "short":
        return r
    if "description" in meta:
        gap()
        add("description", ci=True, kind="section")
        for s in meta["description"]:
            add(s, kind="line")
    if doc.subs:
        gap()
        for s in doc.subs:
            add("- \\fB" + s + "\\fP", kind="line")
    if doc.positionals:
        gap()
        add("positional arguments", ci=True, kind="section")
        for i, p in enumerate(doc.positionals):
            term, alts = doc.entry(p, vm.get(p.slot), i + 1)
            add(*[term + " " + a for a in alts], kind="item", head=term)
    gap()
    add("options", ci=True, kind="section")
    for k, p in doc.visible(adv):
        if k in ("opt", "flag"):
            term, alts = doc.entry(p, vm.get(p.slot))
            add(*[term + " " + a for a in alts], kind="item", head=term)
        elif k in ("section", "subsection"):
            add(p["title"], ci=True, kind=k)
        elif k == "line":
            add(p["text"], kind="line")
        else:
            add(p["key"] + " " + p["text"], kind="item", head=p["key"])
    add("common options", ci=True)
    for w in ("-h, --help", "-hh, --advanced-help", "--version", "--copyright", "--export-help"):
        gap()
        add(w)
    if "examples" in meta:
        gap()
        add("examples", ci=True, kind="section")
        for s in meta["examples"]:
            add(s, kind="line")
    gap()
    add("version", ci=True, kind="section")
    add("Last update: " + meta.get("date", [""])[-1])
    add(doc.app + " version: " + meta.get("version", [""])[-1])
    add("Sharg version:")
    if "url" in meta:
        gap()
        add(meta["url"][0])
    for k in ("short_copyright", "author", "email"):
        if k in meta:
            gap()
            add({"short_copyright": doc.app + " Copyright: ", "author": "Author: ", "email": "Contact: "}[k] + meta[k][0])
    if "citation" in meta:
        gap()
        add("In your academic works please cite: " + meta["citation"][0])
    return r


def align(words, chunks):
    """(None, [(chunk, start, end)]) or (description of the first difference, None)."""
    at, gap = {0}, False
    low = [w.lower() for w in words]
    layers = []
    for c in chunks:
        if c is GAP:
            gap = True
            continue
        ws = low if c.ci else words
        alts = [[w.lower() for w in a] for a in c.alts] if c.ci else c.alts
        starts = range(min(at), len(words) + 1) if gap else sorted(at)
        to = {}
        for j in starts:
            for a in alts:
                if ws[j:j + len(a)] == a:
                    to.setdefault(j + len(a), j)
        if not to:
            i = max(at) if not gap else min(at)
            return "expected %r after %r, found %r" % (" ".join(alts[0]), " ".join(words[max(0, i - 6):i]),
                                                       " ".join(words[i:i + len(alts[0]) + 4])), None
        layers.append((c, to, gap))
        at, gap = set(to), False
    r = []
    end = max(at)
    for i in range(len(layers) - 1, -1, -1):
        c, to, gap = layers[i]
        start = to[end]
        r.append((c, start, end))
        if i:
            prev = layers[i - 1][1]
            end = start if not gap else max(e for e in prev if e <= start)
    return None, r[::-1]


def match(words, chunks):
    """None, or a description of the first difference."""
    return align(words, chunks)[0]


def repeat(rng, doc):
    """Equal texts may follow each other."""
    if rng.random() < 0.15:
        k = [i for i, m in enumerate(doc.meta) if m[0] in ("synopsis", "description", "examples")]
        if k:
            i = rng.choice(k)
            doc.meta.insert(i, doc.meta[i])
    if rng.random() < 0.15:
        k = [i for i, m in enumerate(doc.items) if m[0] in ("line", "item", "section", "subsection")]
        if k:
            i = rng.choice(k)
            doc.items.insert(i, doc.items[i])


def main(ctx):
    ctx.rule = ("random documented set-ups (all kinds of entries, visibilities, defaults, validators, meta data, subcommands),"
                " printed in five forms; the words of each page are compared with the expected word sequence of the"
                " visible interface, and unique markers are counted; non-trivial: at least one entry or meta text")
    ctx.build("debug")
    rng = ctx.rng
    work = []
    for _ in range(ctx.n(700, 12000)):
        doc = D.Doc(rng, words=WORDS, maxlen=rng.choice([12] * 40 + [400]))
        doc.blanks = False
        repeat(rng, doc)
        for arg, fmt in MODES:
            upd = 1 if rng.random() < 0.2 else 0
            e = doc.program([arg] if arg else [], upd=upd)
            e.tag = arg or "no arguments"
            vm_ops = dict(doc.vmsg)
            adv = arg != "-h" and arg != ""

            def check(r, doc=doc, fmt=fmt, adv=adv, vm_ops=vm_ops, e=e, arg=arg, upd=upd):
                if r.parse_outcome(e.parse_op) != "exit":
                    return [("no page", "%r" % (r.parse_outcome(e.parse_op),))]
                vm = {s: dec(r.ops[k]) for s, k in vm_ops.items() if not isinstance(r.ops[k], Exc)}
                bad = []
                words = {"help": D.words_help, "short": D.words_help, "man": D.words_man, "html": D.words_html}[fmt](r.out)
                d = match(words, expected(doc, fmt, adv, vm))
                if d:
                    bad.append((arg + ": page differs", d))
                # the built-in option is there if it can be used
                n = sum("--version-check" in w for w in words)
                if n != (upd if fmt != "short" else 0):
                    bad.append((arg + ": --version-check listed %d times" % n, "update notifications: %d" % upd))
                # markers
                want = {}
                text = " ".join(words)
                vis = []
                meta = dict((k, 1) for k, _ in doc.meta)
                for k, v in doc.meta:
                    if k in ("man_page_title", "man_page_section", "long_copyright"):
                        continue
                    if fmt == "short" and k not in ("short_description", "synopsis"):
                        continue
                    vis.append(v)
                if fmt != "short":
                    for k, p in doc.visible(adv):
                        if k in ("opt", "flag"):
                            vis += [p.desc, p.defmsg]
                        else:
                            vis += [x for x in (p.get("title"), p.get("key"), p.get("text")) if x]
                    vis += [p.desc for p in doc.positionals]
                for v in vis:
                    for m in re.findall(r"mk\d+x", v):
                        want[m] = want.get(m, 0) + 1
                for m, what in doc.markers.items():
                    n = len(re.findall(m, text, re.I))
                    if n != want.get(m, 0):
                        bad.append((arg + ": text printed %d instead of %d times" % (n, want.get(m, 0)),
                                    "%s (%s)" % (m, what)))
                if doc.subs and fmt != "short":
                    ctx.count("subcommand lists")
                ctx.count("markers checked", len(doc.markers))
                ctx.count("entries checked", len(vis))
                return bad
            e.check = check
            work.append(e)
        # validator messages, independent of the library
        for p in [p for k, p in doc.items if k == "opt"] + doc.positionals:
            if p.vali == "none":
                continue
            parts = []
            for l in p.vali.split("|"):
                f = [dec(x) for x in l.split(",")]
                if f[0] == "range":
                    parts.append("Value must be in range [%s,%s]." % (f[1], f[2]))
                elif f[0] == "list":
                    parts.append("Value must be one of [%s]." % ", ".join(f[1:]))
                elif f[0] == "regex":
                    parts.append("Value must match the pattern '%s'." % f[1])
                else:
                    parts = None
                    break
            if parts:
                from exp import Exp
                e = Exp()
                e.slot("v", p.type, p.init)
                i = e.op("vmsg", "v", p.vali)
                e.tag = "validator description"

                def check(r, i=i, want=" ".join(parts)):
                    got = r.ops.get(i)
                    if isinstance(got, Exc) or dec(got) != want:
                        return [("validator description", "expected %r got %r" % (want, got))]
                    return []
                e.check = check
                work.append(e)
    ctx.run(work, env={"SHARG_NO_VERSION_CHECK": "1"})
