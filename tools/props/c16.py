"""C16: the HTML export is well formed and renders every text as it was given."""
import re
from drv import dec
from exp import Exc
import doc as D
import c14 as C14

WORDS = D.PLAIN + D.UNI + D.SPECIAL * 3 + D.FORMAT * 2 + D.ODD + D.CONTROL + ["\\fBopen", "\\fIopen2", "reset\\fP",
         "&nbsp;", "&#x3c;b&#x3e;", "<b>", "<br/>", "]]>", "<![CDATA[", "a=\"b\"", "<p", "</dl></body></html>"]
VOID = {"meta", "br"}
INLINE = {"em", "strong"}
# element -> allowed parents
PARENTS = {"html": {None}, "head": {"html"}, "body": {"html"}, "meta": {"head"}, "title": {"head"}, "h1": {"body"},
           "h2": {"body"}, "h3": {"body"}, "div": {"body"}, "p": {"body"}, "dl": {"body"}, "dt": {"dl"}, "dd": {"dl"}}
ENT = re.compile(r"&(?:amp|lt|gt|quot|apos|mdash|#\d+|#x[0-9a-fA-F]+);")
TAG = re.compile(r"<(/?)([a-z][a-z0-9]*)((?: [a-z\-]+=\"[^\"<>]*\")*)\s*(/?)>")


def tokenize(out):
    """([(word, block element, style set)], error). Strict: anything that is not a known tag, entity or text is an error."""
    import html
    m = re.match(r"<!DOCTYPE [^<>]*>\s*", out)
    if not m:
        return None, "no doctype: %r" % out[:60]
    pos = m.end()
    stack, words, seen = [], [], {}
    text = ""            # pending characters of one run of words
    cur = []             # [(char, style)]

    def flush(block):
        nonlocal cur
        s = "".join(c for c, _ in cur)
        for w in re.finditer(r"\S+", s):
            st = cur[w.start()][1]
            words.append((w.group(), block, st))
        cur = []

    def block():
        for e in reversed(stack):
            if e not in INLINE:
                return e
        return None

    def style():
        return frozenset(e for e in stack if e in INLINE)
    while pos < len(out):
        c = out[pos]
        if c == "<":
            m = TAG.match(out, pos)
            if not m:
                return None, "'<' outside of a tag: %r" % out[pos:pos + 40]
            close, name, _, slash = m.groups()
            pos = m.end()
            if name not in INLINE:
                flush(block())
            if name in VOID:
                if close:
                    return None, "closing void element " + name
                if name == "meta" and (not stack or stack[-1] != "head"):
                    return None, "meta in %r" % stack
                continue
            if close:
                if not stack or stack[-1] != name:
                    return None, "</%s> closes %r" % (name, stack)
                stack.pop()
                continue
            if name in INLINE:
                if not stack or stack[-1] in ("html", "head", "body", "dl", "title"):
                    return None, "<%s> in %r" % (name, stack)
            elif name not in PARENTS or (stack[-1] if stack else None) not in PARENTS[name]:
                return None, "<%s> in %r" % (name, stack)
            seen[name] = seen.get(name, 0) + 1
            stack.append(name)
        elif c == "&":
            m = ENT.match(out, pos)
            if not m:
                return None, "'&' outside of an entity: %r" % out[pos:pos + 40]
            for ch in html.unescape(m.group()):
                cur.append((ch, style()))
            pos = m.end()
        else:
            if c == ">":
                return None, "'>' outside of a tag: %r" % out[max(0, pos - 20):pos + 20]
            if not c.isspace() and (not stack or stack[-1] in ("html", "head", "body", "dl")):
                return None, "text in %r: %r" % (stack, out[pos:pos + 40])
            cur.append((c, style()))
            pos += 1
    if stack:
        return None, "not closed: %r" % stack
    for n in ("html", "head", "body", "title", "h1"):
        if seen.get(n) != 1:
            return None, "%d <%s>" % (seen.get(n, 0), n)
    return words, None


def main(ctx):
    ctx.rule = ("random documented set-ups whose texts contain markup, entities, quotes, formatting escapes and odd"
                " backslashes; a strict tokenizer reads the page (nesting, parents, entities), its words must be the"
                " original texts, in the right elements and with the right emphasis; non-trivial: every page")
    ctx.build("debug")
    rng = ctx.rng
    work = []
    for i in range(ctx.n(1500, 20000)):
        doc = D.Doc(rng, words=WORDS, blanks=rng.random() < 0.3)
        doc.meta = [(k, v if k not in ("version", "date", "url", "email") or rng.random() < 0.6 else v + rng.choice(
            ["<&>", "\"'", "&lt;"])) for k, v in doc.meta]
        e = doc.program(["--export-help=html"] if rng.random() < 0.7 else ["--export-help", "html"])
        e.tag = "html"

        def check(r, doc=doc, e=e, vm_ops=dict(doc.vmsg)):
            if r.parse_outcome(e.parse_op) != "exit":
                return [("no page", "%r" % (r.parse_outcome(e.parse_op),))]
            toks, err = tokenize(r.out)
            if err:
                return [("not well formed: " + re.sub(r"[^A-Za-z<>&' ]", "", err)[:40], err)]
            vm = {s: dec(r.ops[k]) for s, k in vm_ops.items() if not isinstance(r.ops[k], Exc)}
            body = [t for t in toks if t[1] != "title"]
            words = [t[0] for t in body]
            diff, found = C14.align(words, C14.expected(doc, "html", True, vm))
            if diff:
                return [("text differs", diff)]
            bad = []
            ctx.count("words compared", len(words))
            for c, a, b in found:
                h = {"section": "h2", "subsection": "h3", "line": "p", "synopsis": "p", "item": "dd"}.get(c.kind)
                for k in range(a, b):
                    want = "dt" if c.kind == "item" and k < a + c.head else h
                    if want and body[k][1] != want:
                        bad.append(("text in the wrong element", "%r in <%s> instead of <%s>" % (body[k][0], body[k][1], want)))
                        break
                    if want in ("p", "dd", "h2", "h3") and not c.escapes and c.kind != "synopsis":
                        ctx.count("words that must not be emphasised")
                        if body[k][2]:
                            bad.append(("emphasis without reason", "%r in <%s>" % (body[k][0], want)))
                            break
            for w, blk, st in body:
                for word, s in (("bold", "strong"), ("ital", "em")):
                    if w == word:
                        ctx.count("emphasised words")
                        if s not in st:
                            bad.append(("emphasis lost", "%r in <%s>" % (w, blk)))
            return bad[:3]
        e.check = check
        work.append(e)
    ctx.run(work)
