"""C19: validating paths leaves the file system unchanged."""
import os
from drv import enc
import fstree as F
import c18 as C18
import c20 as C20

KNOWN = "existing file deleted by open_or_create"


def main(ctx):
    ctx.rule = ("random trees; an input or output validator is asked about paths in them, as root and as an unprivileged user,"
                " accepting and rejecting; afterwards every entry (type, content, permissions, owner, inode, link target) must"
                " be as before and nothing new may exist; non-trivial: every question")
    ctx.build("debug")
    rng = ctx.rng
    jobs = []
    for i in range(ctx.n(1500, 16000)):
        C20.scenario(ctx, rng, i, jobs)
    answers = C18.ask_trees(ctx, C20.questions(jobs), None)
    exps = []
    for job, (e, want, why, an, a) in zip(jobs, C20.experiments(ctx, rng, jobs, answers)):
        user, cwd, kind, mode, paths, rel, exts, _, b, tree = job
        if rng.random() < 0.12:  # the input validators on the same tree
            kind, mode = rng.choice(["infile", "indir"]), ""
            e = C18.case(user, cwd[0], kind, [p if r else a + "/" + p for p, r in zip(paths, rel)],
                         kind + "".join("," + enc(x) for x in exts) if kind == "infile" else kind, rng)
            e.note = {"paths": paths, "tree": tree.steps}
        # entries the recorded finding is about
        excused = set()
        if mode == "open":
            for p, x in zip(paths, an):
                if x[0] and x[1] == "existing":
                    excused.add(p)
        before = F.snapshot(os.path.dirname(a))

        def check(r, e=e, a=a, before=before, excused=excused, cwd=cwd, why=why):
            after = F.snapshot(os.path.dirname(a))
            ctx.count("entries compared", len(before))
            ctx.count("ended with " + ("acceptance" if r.parse_outcome(e.deciding) == "ok" else "rejection"))
            bad = []
            for n in set(before) | set(after):
                if before.get(n) == after.get(n):
                    continue
                full = os.path.normpath(os.fsencode(os.path.dirname(a)) + b"/" + n)
                if n not in after:
                    hit = [p for p in excused if os.path.realpath(os.path.dirname(F.raw(os.path.join(a, p)).rstrip(b"/"))) +
                           b"/" + os.path.basename(F.raw(p)) == os.path.realpath(os.path.dirname(full)) + b"/" +
                           os.path.basename(full)]
                    if hit:
                        bad.append((KNOWN, repr(n)))
                        continue
                    bad.append(("%s: entry deleted" % e.tag.split()[1], "%r %r (%s)" % (n, before[n], why)))
                elif n not in before:
                    bad.append(("%s: entry left behind" % e.tag.split()[1], "%r %r (%s)" % (n, after[n], why)))
                else:
                    bad.append(("%s: entry changed" % e.tag.split()[1], "%r %r -> %r (%s)" % (n, before[n], after[n], why)))
            return bad[:3]
        e.check = check
        exps.append(e)
    ctx.run(exps)
