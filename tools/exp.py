"""Experiments: small programs over the API with an oracle; packing several into one process; running them."""
import re
from drv import enc, dec, run_cases, Exc, HarnessError, Result  # noqa: F401

# positions of slot/parser names in operations (they get the experiment's number appended when packed)
NAMEPOS = {"slot": (1,), "parser": (1,), "cparser": (1,), "opt": (1, 2), "pos": (1, 2), "flag": (1, 2), "info": (1,),
           "section": (1,), "subsection": (1,), "line": (1,), "item": (1,), "subcmds": (1,), "parse": (1,),
           "issetc": (1,), "issets": (1,), "sub": (1, 2), "move": (1, 2), "assign": (1, 2), "del": (1,),
           "vali": (1,), "vmsg": (1,), "val": (1,)}


class Exp:
    """lines: operations. check(res) -> list of (key, message). solo: needs a process of its own."""

    def __init__(self, solo=False):
        self.lines = []
        self.solo = solo
        self.check = None
        self.tag = ""      # class of the experiment, for the evidence
        self.id = None
        self.note = {}     # what was expected (goes into the replay file)
        self.parsers = []

    def op(self, *t):
        """Appends an operation whose first token is its name; other tokens are given encoded."""
        self.lines.append(" ".join(str(x) for x in t))
        return len(self.lines) - 1

    def slot(self, name, typ, init):
        return self.op("slot", name, typ, *[enc(x) for x in init])

    def parser(self, name, argv, app="app", upd=0, subs=(), c=False):
        self.parsers.append(name)
        return self.op("cparser" if c else "parser", name, enc(app), upd, len(subs), *[enc(x) for x in subs],
                       *[enc(x) for x in argv])

    def add(self, kind, parser, slot, short="", long="", desc="", defmsg="", flags="-", vali="none"):
        return self.op(kind, parser, slot, enc(short), enc(long), enc(desc), enc(defmsg), flags or "-", vali)


def rename(line, suffix):
    t = line.split(" ")
    pos = NAMEPOS.get(t[0], ())
    for p in pos:
        if p < len(t):
            t[p] = t[p] + suffix
    return " ".join(t)


class ExpResult:
    """View of one experiment in the result of a (possibly shared) case."""
    __slots__ = ("ops", "values", "exit_values", "probes", "system", "snaps", "complete", "out", "err", "status",
                 "raw", "sysdone", "began", "destroyed")

    def sanitizer(self):
        return self.raw.sanitizer()

    def hung(self):
        return self.raw.hung()

    @property
    def exit_code(self):
        return self.raw.exit_code

    def parse_outcome(self, i):
        """'ok', Exc, or 'exit' for operation i"""
        if i in self.ops:
            return self.ops[i] if isinstance(self.ops[i], Exc) else "ok"
        return "exit" if self.exit_code == 0 else "died"


def view(raw, exp, base, suffix):
    v = ExpResult()
    v.raw = raw
    n = len(exp.lines)
    v.ops = {i - base: p for i, p in raw.ops.items() if base <= i < base + n}
    v.began = [i - base for i in raw.began if base <= i < base + n]

    def cut(d):
        if not suffix:
            return dict(d)
        return {k[:-len(suffix)]: x for k, x in d.items() if k.endswith(suffix)}
    v.values = cut(raw.values)
    v.exit_values = cut(raw.exit_values)
    pre = exp.id + "."
    v.probes = [(k[len(pre):], x) for k, x in raw.probes if k.startswith(pre)]
    v.system, v.sysdone = raw.system, raw.sysdone
    v.snaps, v.complete, v.out, v.err, v.status = raw.snaps, raw.complete, raw.out, raw.err, raw.status
    v.destroyed = raw.destroyed
    return v


def run_exps(driver, exps, pack=20, jobs=8, env=None, alarm=20):
    """Runs all experiments; yields (exp, ExpResult). Experiments whose shared process showed anything unusual
    (crash, exit, output) run again in a process of their own."""
    for i, e in enumerate(exps):
        e.id = "e%d" % i
    solo = [e for e in exps if e.solo]
    shared = [e for e in exps if not e.solo]
    res = {}
    cases = []
    layout = {}
    for k in range(0, len(shared), pack):
        cid = "p%d" % k
        lines = []
        lay = []
        for j, e in enumerate(shared[k:k + pack]):
            suf = "_%d" % j
            lay.append((e, len(lines), suf))
            lines += [rename(l.replace("@ID@", e.id), suf) for l in e.lines]
            for p in e.parsers:
                lines.append("del " + p + suf)
        cases.append((cid, lines))
        layout[cid] = lay
    again = []
    def plain(es):
        return [(e.id, [l.replace("@ID@", e.id) for l in e.lines]) for e in es]

    if cases:
        rr = run_cases(driver, cases, jobs=jobs, env=env, alarm=alarm)
        for cid, lay in layout.items():
            raw = rr.get(cid)
            if raw is None:     # given up after other packs hung
                continue
            if not raw.complete or not raw.destroyed or raw.sanitizer() or raw.out or raw.err:
                again += [e for e, _, _ in lay]
            else:
                for e, b, suf in lay:
                    res[e.id] = view(raw, e, b, suf)
    one = solo + again
    if one:
        rr = run_cases(driver, plain(one), jobs=jobs, env=env, alarm=alarm)
        hung = [e for e in one if e.id in rr and rr[e.id].hung()]
        if hung:  # rule out a slow machine
            some = hung[:6]
            r2 = run_cases(driver, plain(some), jobs=2, env=env, alarm=alarm * 3, max_hung=1)
            if not any(r.hung() for r in r2.values()):   # it was: everything again, with time
                rest = [e for e in exps if e.id not in res and e.id not in r2 and (e.id not in rr or e in hung)]
                r2.update(run_cases(driver, plain(rest), jobs=jobs, env=env, alarm=alarm * 6, max_hung=1))
            for e in hung:
                rr.pop(e.id)
            rr.update(r2)
        for e in one:
            if e.id in rr:
                res[e.id] = view(rr[e.id], e, 0, "")
        for e in exps:
            if e.id not in res and e.id in rr:
                res[e.id] = view(rr[e.id], e, 0, "")
    for e in exps:
        if e.id in res:
            yield e, res[e.id]
