"""C18: input file and directory validators agree with what the system lets the user do."""
import os
import re
from drv import enc
from exp import Exp, Exc
import fstree as F

EXTS = [[], [], [], ["fa"], ["fa", "fq.gz"], ["txt"], [".fa"], ["FA"]]


def ext_ok(path, exts):
    """C21's oracle: the last component of the path, without one leading dot, ends in '.' + extension."""
    if not exts:
        return True
    name = path.rsplit("/", 1)[-1]
    if name in (".", ".."):
        return False
    if name.startswith("."):
        name = name[1:]
    low = "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in name)
    return any(low.endswith("." + x.lstrip(".").lower()) for x in exts)


def case(user, cwd, kind, paths, vspec, rng, slot_type=None):
    """(Exp, kind of call): validates directly or through parse."""
    e = Exp(solo=True)
    lst = len(paths) > 1 or rng.random() < 0.15
    t = slot_type or (rng.choice(["L_path", "L_str"]) if lst else rng.choice(["path", "str"]))
    e.op("chdir", enc(cwd))
    if user == "nobody":
        e.op("user")
    how = rng.random()
    if how < 0.5 or any("\n" in p for p in paths):
        e.slot("s", t, paths)
        e.deciding = e.op("vali", "s", vspec)
        e.tag = "direct"
    else:
        e.slot("s", t, [] if t.startswith("L_") else [""])
        if how < 0.75 and all(p and not p.startswith("-") for p in paths):
            e.parser("P", ["app"] + paths)
            e.add("pos", "P", "s", vali=vspec)
            e.tag = "positional"
        else:
            args = []
            for p in paths:
                args += ["--in=" + p] if p and rng.random() < 0.7 or p.startswith("-") else ["--in", p]
            e.parser("P", ["app"] + args)
            e.add("opt", "P", "s", "i", "in", vali=vspec)
            e.tag = "option"
        e.deciding = e.op("parse", "P")
    e.tag += " " + kind + " " + user
    return e


def verdict(e, want, why, res):
    """Compares acceptance; anything but acceptance or a validation error is wrong too."""
    o = res.parse_outcome(e.deciding)
    if o == "ok":
        got = True
    elif isinstance(o, Exc) and "validation_error" in o.cls:
        got = False
    else:
        return [("neither accepted nor rejected with a validation error", "%r (%s)" % (o, why))]
    if got != want:
        return [("%s %s" % (" ".join(e.tag.split(" ")[1:-1]), "accepted" if got else "rejected"),
                 "%s (the system says: %s)" % (getattr(o, "what", o), why))]
    return []


def ask_trees(ctx, work, kinds):
    """work: list of (user, cwd, kind, path, mode); answers in order."""
    ans = [None] * len(work)
    for user in ("root", "nobody"):
        idx = [i for i, w in enumerate(work) if w[0] == user]
        for i, a in zip(idx, F.ask(user, [(work[i][1], work[i][2], F.raw(work[i][3]), work[i][4]) for i in idx])):
            ans[i] = a
    return ans


def main(ctx):
    ctx.rule = ("random trees (files, directories, links, loops, fifos, sockets; odd names; all kinds of permissions and"
                " owners), each path given to the input validators as root and as an unprivileged user; expected: what the"
                " system answers that user (stat, open, opendir); non-trivial: every question")
    ctx.build("debug")
    rng = ctx.rng
    jobs = []
    for i in range(ctx.n(60, 800)):
        tree = F.Tree(rng)
        root = ctx.scratch("t%d" % i)
        tree.build(root, rng.choice([0o755, 0o777, 0o755, 0o700]), rng.choice([0, F.NOBODY]))
        cand = tree.candidates()
        for _ in range(45):
            user = rng.choice(["root", "nobody", "nobody"])
            kind = rng.choice(["infile", "infile", "indir"])
            n = rng.choice([1, 1, 1, 2, 3])
            same = [p for p, q in tree.kinds.items() if q == ("dir" if kind == "indir" else "file")]
            paths = [rng.choice(same if same and rng.random() < 0.5 else cand) for _ in range(n)]
            paths = [p if rng.random() < 0.5 or len(p) > 3000 else root + "/" + p for p in paths]
            cwd = root
            st = os.stat(root)
            if user == "nobody" and st.st_uid != F.NOBODY and not st.st_mode & 1:
                cwd = "/"
                paths = [p if p.startswith("/") or len(p) > 3000 else root + "/" + p for p in paths]
            exts = rng.choice(EXTS) if kind == "infile" else []
            jobs.append((user, cwd, kind, paths, exts))
    flat = [(u, c, k, p, "") for u, c, k, ps, x in jobs for p in ps]
    ans = iter(ask_trees(ctx, flat, None))
    exps = []
    for u, c, k, ps, x in jobs:
        a = [next(ans) for _ in ps]
        ok = [bool(b[0]) and (k != "infile" or ext_ok(p, x)) for b, p in zip(a, ps)]
        vs = k + "".join("," + enc(y) for y in x)
        if k == "infile" and 1 <= len(x) <= 3 and rng.random() < 0.3:
            vs = "infilev" + vs[6:]
        e = case(u, c, k, ps, vs, rng)
        why = "; ".join("%r: %s%s" % (p[-60:], "ok" if b[0] else b[1], "" if ext_ok(p, x) else ", extension")
                        for p, b in zip(ps, a))
        e.note = {"paths": ps, "system": why}
        for b in a:
            ctx.count("system says: " + (b[1] or "yes"))
        ctx.count("expected " + ("accepted" if all(ok) else "rejected"))
        e.check = lambda r, e=e, want=all(ok), why=why: verdict(e, want, why, r)
        exps.append(e)
    # nothing may change
    before = {i: F.snapshot(os.path.join(ctx.tmp, "scratch", i)) for i in sorted(os.listdir(os.path.join(ctx.tmp, "scratch")))}
    ctx.run(exps)
    for i, s in before.items():
        if F.snapshot(os.path.join(ctx.tmp, "scratch", i)) != s:
            ctx.violation("input validation changed the file system", i)
