"""C20: output validators accept exactly what the user could create or write (and C19's file system part)."""
import os
from drv import enc
from exp import Exp, Exc
import fstree as F
import c18 as C18

MODES = ["new", "open"]


def scenario(ctx, rng, i, jobs, per=1):
    """Builds a tree twice (for the library and for the oracle) and picks a question about it."""
    tree = F.Tree(rng)
    root_mode, root_owner = rng.choice([0o755, 0o777, 0o755, 0o700, 0o555]), rng.choice([0, F.NOBODY, F.NOBODY])
    # paths of equal length: both trees are asked the same question
    a, b = ctx.scratch("t%d/r" % i), ctx.scratch("o%d/r" % i)
    user = rng.choice(["root", "nobody", "nobody"])
    kind = rng.choice(["outfile", "outfile", "outdir"])
    mode = rng.choice(MODES) if kind == "outfile" else ""
    cand = tree.candidates()
    files = [p for p, q in tree.kinds.items() if q == "file"]
    fresh = [tree.join(d, n) for d in tree.dirs for n in ("new.fa", "zz.fq.gz", "y")]
    special = [p for p, q in tree.kinds.items() if q in ("fifo", "sock")]

    def pick():
        k = rng.random()
        if k < 0.3:
            return rng.choice(fresh)
        if k < 0.45 and files and kind == "outfile":
            return rng.choice(files)
        if k < 0.5 and kind == "outdir":
            return rng.choice(tree.dirs)
        return rng.choice(cand)
    paths = [pick() for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    if mode == "open":   # opening a fifo waits for a reader: nothing to decide
        paths = [p for p in paths if not any(s in p for s in special)] or [rng.choice(fresh)]
        if special:      # nor may a link lead there
            paths = [p for p in paths if not os.path.basename(p.rstrip("/.")).startswith("ln")] or [rng.choice(fresh)]
    rel = [rng.random() < 0.5 or len(p) > 3000 for p in paths]
    if user == "nobody" and root_owner != F.NOBODY and not root_mode & 1:
        rel = [False] * len(paths)
        paths = [p if len(p) < 3000 else "new.fa" for p in paths]
        cwd = [a[:-2], b[:-2]]
    else:
        cwd = [a, b]
    tree.build(a, root_mode, root_owner)
    tree.build(b, root_mode, root_owner)
    exts = rng.choice(C18.EXTS) if kind == "outfile" else []
    jobs.append((user, cwd, kind, mode, paths, rel, exts, a, b, tree))


def questions(jobs):
    """One question per path, asked on the oracle's tree; C18.ask_trees format."""
    r = []
    for user, cwd, kind, mode, paths, rel, exts, a, b, tree in jobs:
        for p, re_ in zip(paths, rel):
            r.append((user, cwd[1], kind, p if re_ else b + "/" + p, mode))
    return r


def experiments(ctx, rng, jobs, answers):
    """Experiments with the expected verdict; questions the system does not settle are left out."""
    ans = iter(answers)
    for user, cwd, kind, mode, paths, rel, exts, a, b, tree in jobs:
        an = [next(ans) for _ in paths]
        lib = [p if re_ else a + "/" + p for p, re_ in zip(paths, rel)]
        vs = kind + ("," + mode if mode else "") + "".join("," + enc(y) for y in exts)
        if kind == "outfile" and mode == "new" and exts and rng.random() < 0.3:
            vs = "outfilev" + "".join("," + enc(y) for y in exts)
        e = C18.case(user, cwd[0], kind, lib, vs, rng)
        if mode:
            e.tag = e.tag.replace("outfile", "outfile " + mode)
        ok = [None if x[0] is None else bool(x[0]) and (kind != "outfile" or C18.ext_ok(p, exts)) for x, p in zip(an, paths)]
        why = "; ".join("%r: %s%s" % (p[-60:], "ok" if x[0] else x[1], "" if C18.ext_ok(p, exts) else ", extension")
                        for p, x in zip(paths, an))
        e.note = {"paths": lib, "system": why, "tree": tree.steps}
        # several questions about one list: earlier elements were created by the oracle
        known = None not in ok and len(set(os.path.normpath(p) for p in paths)) == len(paths)
        yield e, (all(ok) if known else None), why, an, a


def main(ctx):
    ctx.rule = ("random trees, each built twice; an output validator is asked on one, and a process of the same user does the"
                " operation itself (open for writing, mkdir, create a file) on the other; non-trivial: every question")
    ctx.build("debug")
    rng = ctx.rng
    jobs = []
    for i in range(ctx.n(1500, 20000)):
        scenario(ctx, rng, i, jobs)
    answers = C18.ask_trees(ctx, questions(jobs), None)
    exps = []
    for e, want, why, an, a in experiments(ctx, rng, jobs, answers):
        for x in an:
            ctx.count("system says: " + (x[1] or "yes"))
        if want is None:
            ctx.count("not settled")
            continue
        ctx.count("expected " + ("accepted" if want else "rejected"))
        e.check = lambda r, e=e, want=want, why=why: C18.verdict(e, want, why, r)
        exps.append(e)
    ctx.run(exps)
