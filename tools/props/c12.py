"""C12: the subcommand keyword splits the command line between parsers, at every depth."""
from exp import Exp, Exc
from drv import enc
import spec as S
import values as V

NAMES = ["build", "search", "s", "build-index", "buil", "x_y", "Build", "help", "version", "0", "A-", "--sub", "-s", "b",
         "foo", "bar", "5", "true", "red", "update_index",
         "a" * 45 + "b", "a" * 45 + "c"]


class Node:
    """One level: its set-up, its line, the chosen subcommand."""

    def __init__(self, rng, depth, name, prefix, types):
        self.name = name
        self.last = depth == 0
        self.subs = []
        if not self.last:
            self.subs = rng.sample(NAMES, rng.randint(1, 4))
        used = set([""])
        # a subcommand name must not collide with an identifier as written
        for n in self.subs:
            used.add(n.lstrip("-"))
        self.spec = S.rand_spec(rng, n_opt=rng.choice([0, 1, 2]), n_flag=rng.choice([0, 1, 2]),
                                n_pos=rng.choice([0, 1, 2]) if self.last else 0, types=types,
                                list_types=["L_str", "L_i32"], prefix=prefix, used=used, required=0.1)


def main(ctx):
    ctx.rule = ("trees of 1..3 subcommand levels with options and flags at each; values and later arguments equal to"
                " subcommand names; expected split computed from the intent; mistakes (unknown word, request before/after the"
                " keyword) injected; non-trivial: at least one keyword")
    ctx.build("debug", groups=[0, 4])
    rng = ctx.rng
    exps = []
    types = ["str", "str", "i32", "bool", "color", "path"]
    for _ in range(ctx.n(7000, 100000)):
        depth = rng.choice([1, 1, 2, 3])
        nodes = []
        allnames = set()
        for d in range(depth, -1, -1):
            nodes.append(Node(rng, d, None, "v%d_" % d, types))
            allnames |= set(nodes[-1].subs)
        keys = [rng.choice(n.subs) for n in nodes[:-1]]
        lines = []
        for k, n in enumerate(nodes):
            ln = S.rand_line(rng, n.spec, p_use=rng.choice([0.4, 0.8]))
            if not n.last:
                ln.after = None
            # hostile values: names of subcommands
            vals = {}
            for g in ln.groups:
                if g.kind == "opt":
                    if g.par.elem == "str" and rng.random() < 0.5:
                        g.text = rng.choice(sorted(allnames))
                        i, toks = rng.choice(S.spellings(g.par, g.text, rng))
                        g.ids, g.tokens = [i], toks
                    elif g.par.elem == "str" and rng.random() < 0.2:
                        g.text = rng.choice(["--", "-h", "--help"])
                        i, toks = rng.choice(S.spellings(g.par, g.text, rng))
                        g.ids, g.tokens = [i], toks
                    vals.setdefault(g.par.slot, []).append(V.expect(g.text, g.par.elem))
                    ln.expected[g.par.slot] = tuple(vals[g.par.slot]) if g.par.is_list else vals[g.par.slot][0]
            if n.last and n.spec.positionals and n.spec.positionals[-1].type == "L_str" and rng.random() < 0.6:
                extra = [rng.choice(sorted(allnames)) for _ in range(rng.randint(1, 3))]
                extra = [x for x in extra if not x.startswith("-") or ln.after is not None]
                if ln.after is not None:
                    ln.after += extra
                else:
                    ln.groups += [S.Group("pos", [t], None, [], t) for t in extra]
                p = n.spec.positionals[-1]
                ln.expected[p.slot] += tuple("s" + enc(x) for x in extra)
            ln.ids = {i for g in ln.groups for i in g.ids}
            lines.append(ln)
        # mistake
        kind, lvl, cls = "valid", None, None
        r = rng.random()
        if r < 0.15:
            # an unknown word at some level before its keyword
            kind, lvl = "unknown subcommand", rng.randrange(depth)
            w = rng.choice(["nope", "", keys[lvl] + "x", keys[lvl][:-1] or "q", keys[lvl].swapcase() + "q", "-", "buildx",
                            "x"])
            if w in nodes[lvl].subs or (w.startswith("-") and w != "-") or w == "-":
                w = "nope"
            lines[lvl].groups.insert(rng.randint(0, len(lines[lvl].groups)), S.Group("bad", [w]))
            # words before it must not select a subcommand themselves: none do (values only)
        elif r < 0.3:
            kind, lvl = "request", rng.randint(0, depth)
            req = rng.choice(["-h", "--help", "-hh", "--advanced-help", "--version", "--export-help=man",
                              "--export-help=html"])
            lines[lvl].groups.insert(rng.randint(0, len(lines[lvl].groups)), S.Group("request", [req]))
        elif r < 0.4 and depth:
            kind, lvl = "keyword missing", rng.randrange(depth)

        e = Exp()
        pn = "P"
        av = ["app"]
        names = ["app"]
        for k, ln in enumerate(lines):
            if kind == "keyword missing" and k > lvl:
                break
            av += ln.argv()[1:]
            if k < depth and rng.random() < 0.06 and not (kind in ("request", "unknown subcommand") and k == lvl):
                av.append("--")     # does not hide the keyword
            if k < depth:
                if kind == "keyword missing" and k == lvl:
                    break
                av.append(keys[k])
                names.append(names[-1] + "-" + keys[k])
        # a level that has no arguments at all prints its short help
        tail_empty = not lines[-1].groups and lines[-1].after is None
        if tail_empty and kind == "valid":
            lines[-1].after = []
            av.append("--")
        if kind == "keyword missing":
            if not lines[lvl].groups:
                continue
        for n in nodes:
            n.spec.slots(e)
        first = list(nodes[0].subs)
        rng.shuffle(first)
        if rng.random() < 0.1:      # declared twice
            first.insert(rng.randint(0, len(first)), rng.choice(first))
        cut = rng.choice([len(first)] * 8 + [0, len(first) // 2])
        e.parser("P", av, subs=first[:cut])
        if cut < len(first):
            e.op("subcmds", "P", *[enc(x) for x in first[cut:]])
        parses, subops, asks = [], [], []
        for k, n in enumerate(nodes):
            if k:
                q = "Q%d" % k
                subops.append((e.op("sub", pn, q), names[k] if k < len(names) else None))
                pn = q
                if n.subs:
                    e.op("subcmds", pn, *[enc(x) for x in n.subs])
            n.spec.decl(e, parser=pn)
            parses.append(e.op("parse", pn))
            if kind in ("keyword missing", "unknown subcommand") and k == lvl:
                break
            if kind == "request" and k == lvl:
                break
            if kind == "valid":
                for p in n.spec.options + n.spec.flags:
                    if p.short:
                        asks.append((e.op("issetc", pn, enc(p.short)), "-" + p.short in lines[k].ids))
                    if p.long:
                        asks.append((e.op("issets", pn, enc(p.long)), "--" + p.long in lines[k].ids))
        e.note = {"argv": av, "kind": kind, "level": lvl}
        e.tag = "%s, depth %d" % (kind, depth)
        e.solo = kind == "request"

        def check(r, parses=parses, subops=subops, asks=asks, kind=kind, lvl=lvl, nodes=nodes, lines=lines, names=names):
            bad = []
            for k, i in enumerate(parses):
                o = r.parse_outcome(i)
                if kind in ("unknown subcommand", "request") and k == lvl:
                    if kind == "request":
                        if o != "exit":
                            bad.append(("request not answered at its level", "level %d: %r" % (k, o)))
                        elif not any(x in r.out for x in (names[k] + " ", names[k] + "\n", names[k].upper() + " ",
                                                          names[k] + "<")):
                            bad.append(("request answered for another parser", "level %d %s: %r" % (k, names[k],
                                                                                                 r.out[:200])))
                    elif not isinstance(o, Exc) or o.cls != "sharg::user_input_error":
                        bad.append(("unknown subcommand accepted", "level %d: %r" % (k, o)))
                elif o != "ok":
                    bad.append(("valid line rejected", "level %d: %r" % (k, o)))
                    return bad
            for i, n in subops:
                if r.ops.get(i) != enc(n):
                    bad.append(("wrong sub-parser", "expected %s got %r" % (n, r.ops.get(i))))
            upto = len(nodes) if lvl is None else lvl if kind != "keyword missing" else lvl + 1
            vals = r.values or r.exit_values
            for k in range(upto):
                for s, v in lines[k].expected.items():
                    if V.canon(vals.get(s)) != v:
                        bad.append(("wrong value", "%s: expected %r got %r" % (s, v, vals.get(s))))
            for k in range(upto, len(nodes)):
                for p in nodes[k].spec.pars:
                    if V.canon(vals.get(p.slot)) != p.val:
                        bad.append(("value of an unused parser changed", "%s: %r" % (p.slot, vals.get(p.slot))))
            for i, want in asks:
                if r.ops.get(i) != ("1" if want else "0"):
                    bad.append(("is_option_set of the wrong parser", "%r" % (r.ops.get(i),)))
            return bad
        e.check = check
        exps.append(e)
    ctx.run(exps)
