"""C23: opting out leaves no trace; an unusable home never makes parsing fail."""
import os
from drv import enc
from exp import Exp, Exc
import fstree as F

MARKERS = ["VERSION INFO", "[a, n, y, s]", "Update Notification"]


def make_home(rng, base, user, suffix):
    """(HOME or None, TMPDIR or None, description); builds the directories."""
    home, tmp = base + "/home", base + "/tmp"
    hs = rng.choice(["good", "good", "good", "conf", "seqan", "seqan", "seqan", "unset", "empty", "missing", "file", "confile",
                     "seqanfile", "unwritable", "conf unwritable", "seqan unwritable", "relative", "dangling", "odd"])
    ts = rng.choice(["good", "good", "unset", "missing", "file", "unwritable", "empty"])
    own = F.NOBODY if user else 0
    made = []

    def d(p, mode=0o755, o=own):
        os.makedirs(p, exist_ok=True)
        made.append((p, mode, o))
    hval, tval = home, tmp
    if hs in ("good", "unwritable"):
        d(home, 0o755 if hs == "good" else 0o555, own if hs == "good" else 0)
    elif hs in ("conf", "conf unwritable"):
        d(home)
        d(home + "/.config", 0o755 if hs == "conf" else 0o555, own if hs == "conf" else 0)
    elif hs in ("seqan", "seqan unwritable"):
        d(home)
        d(home + "/.config")
        d(home + "/.config/seqan", 0o755 if hs == "seqan" else 0o555, own if hs == "seqan" else 0)
        files = {"app_%s.timestamp" % suffix: rng.choice(["0\nALWAYS", "0\nASK", "0\nNEVER", "abc", "", "9999999999\nALWAYS"]),
                 "app.version": rng.choice(["9.9.9\n9.9.9\n", "UNREGISTERED_APP\n99.0.0\n", "", "0.0.1\n0.0.1\n"])}
        for n, c in files.items():
            if rng.random() < 0.7:
                with open(home + "/.config/seqan/" + n, "w") as f:
                    f.write(c)
                os.chown(home + "/.config/seqan/" + n, own, own)
    elif hs == "unset":
        hval = None
    elif hs == "empty":
        hval = ""
    elif hs == "file":
        open(home, "w").close()
    elif hs == "confile":
        d(home)
        open(home + "/.config", "w").close()
    elif hs == "seqanfile":
        d(home + "/.config")
        open(home + "/.config/seqan", "w").close()
    elif hs == "relative":
        d(base + "/rel")
        hval = "rel"
    elif hs == "dangling":
        os.symlink(base + "/nowhere", home)
    elif hs == "odd":
        hval = base + "/h o'm\"e $(x)"
        d(hval)
    if ts == "good":
        d(tmp)
    elif ts == "unwritable":
        d(tmp, 0o555, 0)
    elif ts == "unset":
        tval = None
    elif ts == "file":
        open(tmp, "w").close()
    elif ts == "empty":
        tval = ""
    if tval in (None, ""):     # the library falls back to /tmp: only with an opt-out, which must not touch it
        pass
    for p, mode, o in made[::-1]:
        os.chown(p, o, o)
        os.chmod(p, mode)
    return hval, tval, hs + "/" + ts


def one(ctx, rng, n, suffix):
    base = ctx.scratch("%s/%d" % (suffix, n))
    user = rng.random() < 0.6
    optout = rng.random() < 0.75
    hval, tval, desc = make_home(rng, base, user, suffix)
    if not optout and tval in (None, ""):
        tval = base + "/tmp2"
        os.mkdir(tval)
        os.chmod(tval, 0o777)
    e = Exp(solo=True)
    tty = rng.random() < 0.4
    if tty:
        e.op("tty", 80, enc("" if optout else "y\n"))
    e.op("chdir", enc(base))
    e.op("env", "HOME", enc(hval)) if hval is not None else e.op("unset", "HOME")
    e.op("env", "TMPDIR", enc(tval)) if tval is not None else e.op("unset", "TMPDIR")
    how = set()
    while optout and not how:
        for h in ("developer", "environment", "switch"):
            if rng.random() < 0.4:
                how.add(h)
    e.op("env", "SHARG_NO_VERSION_CHECK", enc(rng.choice(["1", "", "0", "no"]))) if "environment" in how else \
        e.op("unset", "SHARG_NO_VERSION_CHECK")
    if user:
        e.op("user")
    e.op("sys", 0, 0, 0, 150 if optout else 0, "-")
    before = e.op("snap", "before", enc(base))
    args = ["v"]
    kind = rng.choice(["valid"] * 5 + ["invalid", "help", "help", "version", "subcommand"])
    if kind == "invalid":
        args = ["v", rng.choice(["--unknown", "w"])]
    elif kind == "help":
        args = [rng.choice(["-h", "-hh", "--export-help=html", "--export-help=man"])]
    elif kind == "version":
        args = [rng.choice(["--version", "--copyright"])]
    sw = ["--version-check", rng.choice(["false", "0"])] if "switch" in how else \
        (["--version-check", rng.choice(["true", "1"])] if rng.random() < 0.3 and not (optout and not how & {"developer",
                                                                                          "environment"}) else [])
    if kind == "subcommand":
        args = sw + ["sub", "v"]
    else:
        args = sw + args if rng.random() < 0.5 else args + sw
    e.slot("s", "str", ["x"])
    e.parser("P", ["app"] + args, upd=0 if "developer" in how else 1, subs=["sub"] if kind == "subcommand" else ())
    if kind != "subcommand":
        e.add("pos", "P", "s")
    p = e.op("parse", "P")
    q = p
    if kind == "subcommand":
        e.op("sub", "P", "Q")
        e.add("pos", "Q", "s")
        q = e.op("parse", "Q")
    t = e.op("threads")
    e.op("del", "P")
    e.op("snap", "after", enc(base))
    e.tag = ("opt-out " if optout else "allowed ") + kind
    e.note = {"how": sorted(how), "home": desc, "user": user, "tty": tty}
    ctx.count("home " + desc.split("/")[0])
    ctx.count("tmp " + desc.split("/")[1])
    for h in how:
        ctx.count("opt-out by " + h)
    snap0 = F.snapshot(base)
    times = stamp(base)

    def check(r):
        bad = []
        o = r.parse_outcome(q)
        if kind in ("help", "version"):
            if o != "exit" or not r.out:
                bad.append(("page not printed", "%r (%s)" % (o, desc)))
        elif kind == "invalid":
            if not isinstance(o, Exc) or o.base == "other" or "filesystem" in o.cls:
                bad.append(("no parser error", "%r (%s)" % (o, desc)))
        elif o != "ok" or r.values.get("s") != "s" + enc("v") and "v" not in r.values.get("s", ""):
            bad.append(("parse failed", "%r %r (%s)" % (o, r.values, desc)))
        if optout:
            if r.system:
                bad.append(("process started", "%r" % r.system[:2]))
            if (t in r.ops and r.ops[t] != "1"):
                bad.append(("thread started", "%s threads" % r.ops[t]))
            for m in MARKERS:
                if m in r.err or m in r.out and kind not in ("help",):
                    bad.append(("update notice printed", (r.err or r.out)[:200]))
            if r.err or (kind in ("valid", "invalid", "subcommand") and r.out):
                bad.append(("something printed", (r.err + r.out)[:200]))
            snap1 = F.snapshot(base)
            if snap1 != snap0:
                diff = [k for k in set(snap0) | set(snap1) if snap0.get(k) != snap1.get(k)]
                bad.append(("files changed", "%r (%s)" % (diff, desc)))
            elif stamp(base) != times:
                bad.append(("files touched", "%r" % [k for k in times if stamp(base).get(k) != times[k]]))
        return bad[:3]
    e.check = check
    return e


def stamp(base):
    """Modification times of everything below base."""
    r = {}
    for d, ds, fs in os.walk(base):
        for n in [d] + [os.path.join(d, f) for f in fs]:
            r[n] = os.lstat(n).st_mtime_ns
    return r


def main(ctx):
    ctx.rule = ("random combinations of opting out (developer, environment, switch), states of home and temporary directory,"
                " stored files, user, terminal and command line; watched: processes, threads, output, every file below the"
                " scratch directory and in /tmp; non-trivial: every parse")
    ctx.build("debug", "release0", groups=[0, 1])
    for flavour, suffix in (("debug", "dev"), ("release0", "usr")):
        exps = [one(ctx, ctx.rng, i, suffix) for i in range(ctx.n(900, 12000))]
        ctx.run(exps, flavour, env={"SHARG_NO_VERSION_CHECK": None})
