"""C17: the man page export consists of the expected macro lines and of text lines."""
import re
from drv import dec
from exp import Exc
import doc as D
import c14 as C14

WORDS = D.PLAIN + D.UNI + D.SPECIAL + D.FORMAT + [c for c in D.CONTROL if c != "\\&x"] * 3 + [".TH", ".so", "'so", ".TP",
         ".SS", ".sp", ".nf", "...", "'''", ".ig", ".ds", ".if", ".PP"]
MACRO = re.compile(r"\.(?:SH .+|SS .+|TP|br|sp)$")


def read(out):
    """([(word, line number)], lines, error)"""
    lines = out.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    if not lines or not lines[0].startswith(".TH "):
        return None, lines, "the page does not start with .TH: %r" % lines[:1]
    if len(lines) < 2 or lines[1] != ".SH NAME":
        return None, lines, "no NAME section: %r" % lines[:2]
    toks = []
    for n, l in enumerate(lines[1:], 1):
        if l.startswith((".", "'")):
            if not MACRO.match(l):
                return None, lines, "text became a request: %r" % l
            if l.startswith(".S"):
                toks += [(w, n) for w in l[4:].split()]
            continue
        toks += [(w, n) for w in D.man_text(l).split()]
    return toks, lines, None


def main(ctx):
    ctx.rule = ("random documented set-ups whose texts contain words starting with control characters, at the beginning of"
                " texts and after line breaks; every line of the page must be an expected macro line or text, and the words"
                " and their macro lines must be those of the set-up; non-trivial: every page")
    ctx.build("debug")
    rng = ctx.rng
    work = []
    for i in range(ctx.n(1800, 24000)):
        doc = D.Doc(rng, words=WORDS, blanks=rng.random() < 0.5, maxlen=rng.choice([2, 5, 12]), title_breaks=rng.random() < 0.4)
        e = doc.program(["--export-help=man"] if rng.random() < 0.7 else ["--export-help", "man"])
        e.tag = "man"

        def check(r, doc=doc, e=e, vm_ops=dict(doc.vmsg)):
            if r.parse_outcome(e.parse_op) != "exit":
                return [("no page", "%r" % (r.parse_outcome(e.parse_op),))]
            toks, lines, err = read(r.out)
            if err:
                return [(err.split(":")[0], err)]
            vm = {s: dec(r.ops[k]) for s, k in vm_ops.items() if not isinstance(r.ops[k], Exc)}
            words = [t[0] for t in toks]
            diff, found = C14.align(words, C14.expected(doc, "man", True, vm))
            if diff:
                return [("text differs", diff)]
            bad = []
            meta = dict(doc.meta)
            th = '.TH APP %s "%s" "app %s" "%s"' % (meta.get("man_page_section", "1"), meta.get("date", ""),
                                                    meta.get("version", ""),
                                                    meta.get("man_page_title", "").replace("\n", " "))
            if lines[0] != th:
                bad.append(("title line", "expected %r got %r" % (th, lines[0])))
            if not lines[2].startswith("app \\-"):
                bad.append(("NAME line", repr(lines[2])))
            n = {"section": 0, "subsection": 0, "item": 0}
            for c, a, b in found:
                if c.kind is None or a == b:
                    continue
                ln = toks[a][1]
                n[c.kind] = n.get(c.kind, 0) + 1
                if a and toks[a - 1][1] == ln:
                    bad.append(("entry does not start on a line of its own", repr(lines[ln])))
                if c.kind in ("section", "subsection"):
                    m = ".SH" if c.kind == "section" else ".SS"
                    if lines[ln][:4] != m + " " or (b > a and toks[b - 1][1] != ln):
                        bad.append(("%s without its macro" % c.kind, repr(lines[ln])))
                elif c.kind == "item" and c.head:
                    if lines[ln - 1] != ".TP":
                        bad.append(("entry without its macro", repr(lines[ln - 1:ln + 1])))
                    if b > a + c.head and toks[a + c.head][1] == ln:
                        bad.append(("term and text on one line", repr(lines[ln])))
                elif c.kind == "line" and not re.match(r"\.(br|sp|SH|SS)", lines[ln - 1]) and lines[ln - 1].strip():
                    bad.append(("line without its macro", repr(lines[ln - 1:ln + 1])))
            ctx.count("protected lines", sum(l.startswith("\\&") for l in lines))
            ctx.count("macro lines", sum(l.startswith(".") for l in lines))
            ctx.count("sub sections", n["subsection"])
            ctx.count("entries", n["item"])
            common = 5
            if sum(l == ".TP" for l in lines) != n["item"] + common:
                bad.append(("number of macro lines", "%d .TP for %d entries" % (sum(l == ".TP" for l in lines), n["item"])))
            if sum(l[:4] == ".SS " for l in lines) != n["subsection"] + 1:  # the common options
                bad.append(("number of macro lines", ".SS"))
            return bad[:3]
        e.check = check
        work.append(e)
    ctx.run(work)
