"""C15: console help wraps at the terminal width, complete and in order."""
import re
from drv import dec
from exp import Exc
import doc as D
import c14 as C14


WIDTHS = [1, 2, 10, 39, 40, 41, 42, 43, 47, 50, 60, 66, 72, 78, 79, 80, 81, 82, 90, 100, 110, 118, 119, 120, 121, 122,
          130, 200, 1000, 65535]
WORDS = D.PLAIN + D.FORMAT + D.ODD + ["q\\f", "\\fXy", "a\\fZ\\fBc\\fP", "<tag>", "a&b"]
TITLES = {"section", "subsection"}


def limit(width):
    """Layout width for a terminal of this width (None or 0: unknown)."""
    return min(max(width or 80, 40), 120) - 2


def judge(doc, out, width, adv, vm, ctx, short=False, terminal=False):
    L = limit(width)
    bad = []
    lines = D.ANSI.sub("", out).replace("\r", "").split("\n")
    toks = []  # (line, column, end column, word)
    for n, l in enumerate(lines):
        for m in re.finditer(r"\S+", l):
            toks.append((n, m.start(), m.end(), m.group()))
    words = [t[3] for t in toks]
    # emphasis: control sequences on a terminal (the headings are always emphasised), and nowhere else
    if not terminal and "\033" in out:
        return [("control sequences in output that is no terminal", "%r" % out[:300])]
    if terminal and not short and "\033[1m" not in out:
        return [("no emphasis on a terminal", "%r" % out[:300])]
    if terminal and re.search(r"\033(?!\[[014]m)", out):
        return [("unexpected control sequence", "%r" % out[:300])]
    diff, found = C14.align(words, C14.expected(doc, "short" if short else "help", adv, vm))
    if diff:
        return [("words missing or out of order", "width %s: %s" % (width, diff))]
    free = set([0, 1])        # lines that are not wrapped: title
    for c, a, b in found:
        if c.kind is None or a == b:
            continue
        l0, col = toks[a][0], toks[a][1]
        indent = {"section": 0, "subsection": 2, "line": 4, "synopsis": 4, "item": 4}[c.kind]
        if a and toks[a - 1][0] == l0:
            bad.append(("entry does not start on a line of its own", "width %s: %r" % (width, lines[l0])))
        elif c.head > 0 or c.kind != "item":
            if col != indent:
                bad.append(("wrong indentation of a %s" % c.kind, "width %s: %r" % (width, lines[l0])))
        if c.kind in TITLES:
            free.add(l0)
            continue
        first = a + c.head
        tab = {"item": 10, "synopsis": None}.get(c.kind, 4)
        if c.head:
            # the term is on one line
            if any(toks[k][0] != l0 for k in range(a, first)):
                bad.append(("term broken", "width %s: %r" % (width, lines[l0])))
        for k in range(first + 1, b):
            p, q = toks[k - 1], toks[k]
            if p[0] == q[0]:
                if q[2] > L and not (k == first + 1 and p[2] > L):
                    bad.append(("line too long", "width %s: %d > %d: %r" % (width, q[2], L, lines[q[0]])))
            else:
                ctx.count("line breaks")
                if tab is not None and q[1] != tab and not (k == first + 1 and p[2] > L):
                    bad.append(("wrong indentation of a continued text", "width %s: %r" % (width, lines[q[0]])))
                if len(lines[p[0]][:p[2]].encode()) + 1 + len(q[3].encode()) <= L and c.kind != "synopsis":
                    bad.append(("line broken too early", "width %s: %r %r" % (width, lines[p[0]], q[3])))
        for k in range(first, b):   # single words that do not fit
            if toks[k][2] > L:
                on = [t for t in toks[first:b] if t[0] == toks[k][0]]
                if len(on) > 1:
                    bad.append(("line too long", "width %s: %d > %d: %r" % (width, toks[k][2], L, lines[toks[k][0]])))
                free.add(toks[k][0])
        if c.head and toks[first - 1][2] > L:
            free.add(l0)
    for n, l in enumerate(lines):
        if n not in free and len(l.rstrip()) > L and len(l.split()) > 1:
            bad.append(("line too long", "width %s: %d > %d: %r" % (width, len(l), L, l)))
    ctx.count("lines measured", len(lines))
    return bad[:3]


def main(ctx):
    ctx.rule = ("random documented set-ups with texts of 1 to 60 words (words of 1 to 150 characters, escapes, blanks of all"
                " kinds) printed on a pseudo terminal of a chosen width; every line is measured and the words are compared"
                " with the expected sequence; non-trivial: every page")
    ctx.build("debug")
    rng = ctx.rng
    work = []
    for i in range(ctx.n(1100, 16000)):
        words = list(WORDS)
        for _ in range(6):
            words.append("".join(rng.choice("abcdefgh-") for _ in range(rng.choice([2, 5, 9, 15, 30, 36, 38, 40, 45, 70, 80,
                                                                                   110, 118, 120, 150]))).strip("-") or "q")
        words = [w for w in words if not w.startswith("\\-")] + rng.choice([[], ["\\-\\-long"]])
        doc = D.Doc(rng, words=words, maxlen=rng.choice([6, 20, 60]), blanks=rng.random() < 0.4, max_items=6)
        doc.meta = [(k, v) for k, v in doc.meta if k not in ("url", "email")]
        width = rng.choice(WIDTHS) if rng.random() < 0.8 else rng.randint(1, 140)
        if rng.random() < 0.12:
            width = rng.choice([None, 0])
        arg = rng.choice(["-h", "-hh", "-hh", "-h", ""])
        which = rng.choice(["ioe", "ioe", "o", "io", "oe", "ie", "e"])    # which standard streams are the terminal
        e = doc.program([arg] if arg else [], width=width, which=which)
        terminal = "o" in which and width is not None
        if "o" not in which:
            width = None
        e.tag = "width %s" % ("unknown" if not width else "below" if width < 40 else "above" if width > 120 else "between")

        def check(r, doc=doc, e=e, width=width, arg=arg, terminal=terminal, vm_ops=dict(doc.vmsg)):
            if r.parse_outcome(e.parse_op) != "exit":
                return [("no page", "%r" % (r.parse_outcome(e.parse_op),))]
            vm = {s: dec(r.ops[k]) for s, k in vm_ops.items() if not isinstance(r.ops[k], Exc)}
            return judge(doc, r.out, width, arg == "-hh", vm, ctx, arg == "", terminal)
        e.check = check
        work.append(e)
    ctx.run(work)
    ctx.assumptions.append("the title line and section titles are not wrapped (they are single words here or exempt)")
