"""C27: the outcome does not depend on other parsers, earlier or concurrent; no data races (ThreadSanitizer)."""
import os
from drv import run_cases, Exc, enc
from exp import rename, view, Exp
import progs


def shape(e, v):
    """Everything observable of one program."""
    r = {"ops": {i: (x.cls, x.base, x.what) if isinstance(x, Exc) else x for i, x in v.ops.items()},
         "probes": v.probes}
    if v.exit_values:
        r["values"] = {k: x for k, x in v.exit_values.items()}
    else:
        r["values"] = dict(v.values)
    return r


def difference(a, b):
    for k in ("ops", "values", "probes"):
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                d = [(i, b[k].get(i), a[k].get(i)) for i in sorted(set(a[k]) | set(b[k]), key=str) if a[k].get(i) != b[k].get(i)]
                return k + " differ: (where, now, alone) %r" % (d[:2],)
            return k + " differ: %r instead of %r" % (b[k], a[k])
    return None


def version_checks(ctx, rng):
    """The update checks of several applications in one process: as each of them alone."""
    exps = []
    for i in range(ctx.n(60, 1200)):
        conf = []
        for k in range(rng.choice([2, 2, 3, 5])):
            conf.append((rng.choice(["app", "app", "app2", "tool-a", "tool-b"]), rng.choice([True, True, False, None]),
                         rng.choice([None, (0, "ALWAYS"), (10 ** 6, "ALWAYS"), (10 ** 6, "ALWAYS"), (10 ** 6, "NEVER"), (0, "ASK"),
                                     (10 ** 6, "ASK")]), rng.random() < 0.9))
        alone = {}
        for which in list(range(len(conf))) + ["together"]:
            e = Exp(solo=True)
            base = ctx.scratch("v%d/%s" % (i, which))
            e.op("sys", 0, 0, 0, 0, "-")
            ks = []
            for k, (app, switch, state, dev) in enumerate(conf):
                if which not in (k, "together"):
                    continue
                home = base + "/h%d" % k
                os.mkdir(home)
                e.op("env", "HOME", enc(home))
                if state:
                    e.op("mkdir", enc(home + "/.config/seqan"))
                    e.op("cookie", enc(home + "/.config/seqan/%s_dev.timestamp" % app), state[0], enc(state[1]))
                b = e.op("syscalls")
                e.slot("s%d" % k, "str", [""])
                e.parser("P%d" % k, ["app"] + ([] if switch is None else ["--version-check", "true" if switch else "false"])
                         + ["v"], app=app, upd=1 if dev else 0)
                e.add("pos", "P%d" % k, "s%d" % k)
                p = e.op("parse", "P%d" % k)
                e.op("del", "P%d" % k)
                a = e.op("syscalls")
                e.op("snap", "h%d" % k, enc(home))
                ks.append((k, b, p, a))
            e.tag = "update checks, " + ("alone" if which != "together" else "together")
            e.note = {"applications": conf}

            def check(r, which=which, ks=ks, alone=alone):
                bad = []
                for k, b, p, a in ks:
                    if r.ops.get(p) != "" or a not in r.ops:
                        return [("parse did not succeed", "%r" % (r.parse_outcome(p),))]
                    # names of files, stored decisions, number of commands
                    got = (int(r.ops[a]) - int(r.ops[b]),
                           sorted((x, v[4].partition("\n")[2] if x.endswith(".timestamp") else "")
                                  for x, v in r.snaps.get("h%d" % k, {}).items()))
                    if which != "together":
                        alone[k] = got
                    elif k in alone and got != alone[k]:
                        bad.append(("the update check depends on other parsers", "%d: %r, alone %r" % (k, got, alone[k])))
                return bad[:2]
            e.check = check
            exps.append(e)
    ctx.run(exps, env={"SHARG_NO_VERSION_CHECK": None})


def main(ctx):
    ctx.rule = ("random complete programs, each run alone in a process; then (1) after random other programs in the same"
                " process (and repeated there), (2) together with seven others, or seven copies of itself, in threads of one"
                " process under ThreadSanitizer; values, results, messages and output must be those of the program alone;"
                " (3) update checks of several applications in one process must act as"
                " in processes of their own; non-trivial: every program")
    ctx.build("debug", "tsan")
    rng = ctx.rng
    version_checks(ctx, rng)
    n = ctx.n(1600, 25000)
    ps = []
    for i in range(n):
        e = progs.rand_program(rng, pages=0.3)
        e.id = "e%d" % i
        for p in e.parsers:
            e.op("del", p)
        ps.append(e)

    def lines(e, suf=""):
        return [rename(l.replace("@ID@", e.id), suf) if suf else l.replace("@ID@", e.id) for l in e.lines]

    alone = run_cases(ctx.drivers["debug"], [(e.id, lines(e)) for e in ps])
    base = {}
    quiet = []
    for e in ps:
        r = alone.get(e.id)
        if r is None:
            continue
        ctx.observe(e)
        if r.sanitizer() or r.hung():
            ctx.violation("abnormal end alone", r.sanitizer() or "hang", e, view(r, e, 0, ""), "debug")
            continue
        base[e.id] = (shape(e, view(r, e, 0, "")), r.out, r.err, r.exit_code)
        if r.complete:
            quiet.append(e)
    ps = [e for e in ps if e.id in base]

    # (1) after others
    cases, lay = [], {}
    for k, e in enumerate(ps):
        # a whole history in one process; the last may exit
        hist = [rng.choice(quiet) for _ in range(rng.choice([1, 2, 5, 10]))] if quiet else []
        if e in quiet and rng.random() < 0.5:
            hist.insert(rng.randint(0, len(hist)), e)
        ls, where = [], []
        for j, h in enumerate(hist + [e]):
            suf = "_%d" % j
            where.append((h, len(ls), suf))
            ls += lines(h, suf)
        cases.append(("h%d" % k, ls))
        lay["h%d" % k] = where
    rr = run_cases(ctx.drivers["debug"], cases) if quiet else {}
    for cid, ls in cases:
        r = rr.get(cid)
        if r is None:
            continue
        w = Exp(solo=True)
        w.lines = ls
        w.id = cid
        w.tag = "history"
        ctx.observe(w)
        ctx.count("programs run after others", len(lay[cid]) - 1)
        if r.sanitizer() or r.hung():
            ctx.violation("abnormal end after others", r.sanitizer() or "hang", w, view(r, w, 0, ""), "debug")
            continue
        for e, b, suf in lay[cid]:
            v = view(r, e, b, suf)
            d = difference(base[e.id][0], shape(e, v))
            if d is None and (e, b, suf) == lay[cid][-1] and (r.out, r.err, r.exit_code) != base[e.id][1:]:
                d = "output differs: %r instead of %r" % ((r.out, r.err, r.exit_code), base[e.id][1:])
            if d:
                ctx.violation("depends on earlier parsers", "%s; program %r" % (d[:500], e.lines[:8]), w, v, "debug")
                break

    # (2) together with others
    mt = 8
    rounds = ctx.n(260, 4000) if quiet else 0
    cases = []
    owner = {}
    for k in range(rounds):
        group = [rng.choice(quiet)] * mt if rng.random() < 0.3 else [rng.choice(quiet) for _ in range(mt)]
        for j, e in enumerate(group):
            cid = "m%dx%d" % (k, j)
            ls = lines(e)
            owner[cid] = e
            cases.append((cid, ls))
    rr = run_cases(ctx.drivers["tsan"], cases, mt=mt, jobs=4, alarm=120, chunk=mt * 8)
    for k in range(rounds):
        ids = ["m%dx%d" % (k, j) for j in range(mt)]
        w = Exp(solo=True)
        w.tag = "threads"
        w.lines = ["# " + i + "\n" + "\n".join(owner[i].lines) for i in ids]
        ctx.observe(w)
        r0 = rr.get(ids[0])
        if r0 is None and any(r.hung() for r in rr.values()):
            continue
        if r0 is None or r0.hung() or r0.sanitizer():
            ctx.violation("threads: " + (r0.sanitizer() if r0 and r0.sanitizer() else "hang"),
                          (r0.err[:1500] if r0 else "no result"), w, None, "tsan", extra={"err": r0.err[:6000] if r0 else ""})
            continue
        for i in ids:
            r = rr.get(i)
            e = owner[i]
            ctx.count("programs run in threads")
            if r is None:
                ctx.violation("threads: a program ended early", i, w, None, "tsan")
                continue
            d = difference(base[e.id][0], shape(e, view(r, e, 0, "")))
            if d:
                ctx.violation("depends on concurrent parsers", "%s; program %r" % (d[:500], e.lines[:8]), w, None, "tsan")
    ctx.count("programs with an exit", len(ps) - len(quiet))
    ctx.assumptions.append("programs that end the process (pages) are not run in threads: their exit ends all threads")
