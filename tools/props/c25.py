"""C25: the printed notices are those implied by the record and the running versions."""
import os
import re
from drv import enc
from exp import Exp
import build as B

PHRASES = {  # what a notice is recognised by
    "app update": "new version of this application is now available",
    "library update": "new Sharg version is available",
    "registered": "newer than the one registered",
    "unregistered": "register your app",
}
APPS = ["app", "app2", "App", "a-p", "a_usr", "0", "-x"]


def lib_version():
    with open(B.REPO + "/include/sharg/version.hpp") as f:
        t = f.read()
    return tuple(int(re.search(r"define SHARG_VERSION_%s (\d+)" % x, t).group(1)) for x in ("MAJOR", "MINOR", "PATCH"))


def near(rng, v):
    """A version close to v in one of the interesting ways."""
    v = list(v)
    k = rng.random()
    if k < 0.15:
        return tuple(v)
    i = rng.randrange(3)
    if k < 0.55:      # one component a bit up or down, the later ones arbitrary
        v[i] = max(0, v[i] + rng.choice([-1, 1, -1, 1, 10, -10, 90, 100]))
        for j in range(i + 1, 3):
            if rng.random() < 0.6:
                v[j] = rng.choice([0, 1, 9, 10, 99, 1000])
    elif k < 0.7:     # other number of digits
        v[i] = v[i] * 10 + rng.randrange(10)
    elif k < 0.8:
        v[i] = v[i] // 10
    elif k < 0.9:     # two components against each other
        j = rng.choice([x for x in range(3) if x != i])
        v[i] += 1
        v[j] = max(0, v[j] - 1)
    else:
        v = [rng.choice([0, 1, 2, 9, 10, 11, 255, 256, 65535, 65536, 10 ** 6, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 20261118093000,
                         10 ** 20, 2 ** 64, 10 ** 30])
             for _ in range(3)]
    return tuple(v)


def text(rng, v):
    if rng.random() < 0.1:
        return ".".join("0" * rng.choice([0, 1, 2, 5]) + str(x) for x in v)
    return ".".join(str(x) for x in v)


def malformed(rng, v):
    t = text(rng, v)
    return rng.choice([t[:-1] if not t[-2].isdigit() else t + ".", t + " ", " " + t, t + ".1", t + "-rc1", "v" + t, t.replace(".", ","), "-" + t, "+" + t, t.rsplit(".", 1)[0],
                       t.split(".")[0], "abc", "..", t.replace(".", "..", 1), "unregistered_app", "UNREGISTERED_APP ",
                       " UNREGISTERED_APP", "<html>404</html>", "\0" + t, t + "\0", "\xff\xfe", "1" * 100000, "1." * 50000, t + "\r",
                       "a" * 1000000, "0x1.2.3", "1.2.0x3", "1.-2.3", "1.2.-3", "1. 2.3", "1.2.+3"])


def record(rng, run, lib):
    """(content or None, app line, library line): a line is a version, 'unregistered', 'malformed' or None (not there)."""
    k = rng.random()
    if k < 0.06:
        return None, None, None
    if k < 0.10:
        return "", None, None
    if k < 0.13:
        return "\n" * rng.choice([1, 2, 5]), None, None
    kind = rng.random()
    if kind < 0.65:
        v = near(rng, run if rng.random() < 0.85 else lib)
        a = text(rng, v)
        app = v
    elif kind < 0.85:
        a, app = "UNREGISTERED_APP", "unregistered"
    else:
        a, app = malformed(rng, run if rng.random() < 0.5 else (9, 9, 9)), "malformed"
    kind = rng.random()
    if kind < 0.62:
        v = near(rng, lib if rng.random() < 0.85 else run)
        return a + "\n" + text(rng, v) + rng.choice(["\n", "", "\n\n", "\nsome more\n"]), app, v
    if kind < 0.72:
        return a + "\n" + malformed(rng, (9, 9, 9)) + rng.choice(["\n", ""]), app, "malformed"
    return a + rng.choice(["\n", "", "\n\n"]), app, None


def expected(run, lib, app, library, developer):
    """notice -> True, False, or None (not settled by the property)"""
    w = dict.fromkeys(PHRASES, False)
    if developer:
        w["unregistered"] = app == "unregistered"
        if isinstance(library, tuple):
            w["library update"] = (lib < library) if app != "malformed" else (None if lib < library else False)
        if isinstance(app, tuple):
            w["registered"] = run > app if run is not None and app != (0, 0, 0) else None
            if w["registered"] and library == "malformed":
                w["registered"] = None
    elif isinstance(app, tuple):
        w["app update"] = run < app if run is not None else None
        if w["app update"] and library == "malformed":
            w["app update"] = None
    if library == "malformed" and w["unregistered"]:
        w["unregistered"] = None
    return w


def one(ctx, rng, n, suffix, lib):
    e = Exp(solo=True)
    base = ctx.scratch("%s/%d" % (suffix, n))
    home, tmp = base + "/home", base + "/tmp"
    os.mkdir(tmp)
    in_home = rng.random() < 0.8
    conf = home + "/.config/seqan" if in_home else tmp
    os.makedirs(conf, exist_ok=True)
    e.op("env", "HOME", enc(home)) if in_home else e.op("unset", "HOME")
    e.op("env", "TMPDIR", enc(tmp))
    tty = rng.random() < 0.1
    want = {k: [0, 0] for k in PHRASES}   # at least, at most
    parses = []
    urls = [0, 0]
    state = {}                            # app -> what is on record
    for step in range(rng.choice([1, 1, 1, 2, 3])):
        app = rng.choice(APPS)
        run = rng.choice([lib, (0, 0, 0), (1, 2, 3), (2, 10, 0), (10, 0, 9), (0, 0, 1), (2 ** 31, 1, 1), (20261118093000, 0, 0)])
        vt, version = text(rng, run), run
        k = rng.random()
        if k < 0.2:
            vt += rng.choice(["-rc1", "-rc.2 (commit 0123)", ".4", "alpha", " [git 99.0.0]"])
        elif k < 0.28:
            vt, version = rng.choice(["", "v" + vt, "1.2", "abc", "1", "1.2.", "-1.2.3"]), None
        content, ra, rl = state.get(app, (None, None, None))
        if content != "dir" and (rng.random() < 0.9 or app not in state):
            content, ra, rl = record(rng, run, lib)
            f = "%s/%s.version" % (conf, app)
            if content is not None:
                e.op("mkfile", enc(f), enc(content))
            elif app in state and state[app][0] is not None:
                e.op("rm", enc(f))
            state[app] = (content, ra, rl)
            if content is None and rng.random() < 0.3:
                e.op("mkdir", enc(f))   # cannot be read as a file
                state[app] = ("dir", None, None)
        if rng.random() < 0.5:          # a record of another application
            other = rng.choice(["ap", "app3", "_app", "app.version", "app_dev", "app_usr"])
            e.op("mkfile", enc("%s/%s.version" % (conf, other)), enc("99.99.99\n99.99.99\n"))
        off = rng.random() < 0.1
        down = None
        if not off and rng.random() < 0.3 and state[app][0] != "dir":
            down = record(rng, run, lib)
            if down[0] is None:
                down = None
        e.op("sys", *rng.choice([(0, 0), (0, 1), (1, 0)]), 0, 0, enc(down[0]) if down else "-")
        url = rng.choice(["", "", "https://example.org/rel", "https://x.y/?a=b%20c&d"])
        how = rng.choice(["switch", "switch", "cookie"])
        args = ["app", "v"]
        if how == "switch":
            sw = ["--version-check", "false" if off else "true"]
            args = args[:1] + sw + args[1:] if rng.random() < 0.5 else args + sw
        else:
            e.op("cookie", enc("%s/%s_%s.timestamp" % (conf, app, suffix)), 100000, "NEVER" if off else "ALWAYS")
        e.slot("s%d" % step, "str", ["x"])
        P = "P%d" % step
        e.parser(P, args, app=app, upd=1)
        if vt or rng.random() < 0.5:
            e.op("info", P, "version", enc(vt))
        if url:
            e.op("info", P, "url", enc(url))
        e.add("pos", P, "s%d" % step)
        parses.append(e.op("parse", P))
        e.op("del", P)
        if off:
            w = dict.fromkeys(PHRASES, False)
        else:
            w = expected(version, lib, ra, rl, suffix == "dev")
        for k, x in w.items():
            want[k][0] += x is True
            want[k][1] += x is not False
        if url:
            urls[0] += w["app update"] is True
            urls[1] += w["app update"] is not False
        e.note["step %d" % step] = (vt, (content or "")[:100], url, "off" if off else "on", w)
        if down:
            state[app] = down
    if tty:
        e.lines.insert(0, "tty 80 %")
    sh = 1 if tty else 0
    yes = [k for k in want if want[k][0]]
    e.tag = "%s: %s" % (suffix, ", ".join(sorted(yes)) or "nothing to say")

    def check(r):
        for p in parses:
            if r.parse_outcome(p + sh) != "ok":
                return [("parse did not succeed", repr(r.parse_outcome(p + sh)))]
        t = r.err + r.out
        bad = []
        for k, ph in PHRASES.items():
            got = t.count(ph)
            ctx.count("notice: " + k, got)
            if not want[k][0] <= got <= want[k][1]:
                bad.append(("notice %s: %s" % ("missing" if got < want[k][0] else "without reason", k),
                            "%d times instead of %r: %r" % (got, want[k], t[:300])))
        got = len(re.findall(r"https://(?:example\.org/rel|x\.y/\?a=b%20c&d)", t))
        if not urls[0] <= got <= urls[1]:
            bad.append(("address in the notice", "%d times instead of %r: %r" % (got, urls, t[:300])))
        rest = [x for x in t.replace("\r", "").split("\n") if x.strip() and "VERSION INFO]" not in x]
        if rest:
            bad.append(("unexpected output", repr(rest[:3])))
        return bad[:3]
    e.check = check
    return e


def main(ctx):
    ctx.rule = ("sequences of update checks with random application versions and records (versions next to the running one"
                " component by component, large and padded numbers, every kind of malformed line, missing lines and files,"
                " records of other applications, records replaced by a download); the notices on stderr are compared with the"
                " numeric comparison; non-trivial: every sequence")
    ctx.build("debug", "release0", groups=[0, 1])
    lib = lib_version()
    for flavour, suffix in (("debug", "dev"), ("release0", "usr")):
        exps = [one(ctx, ctx.rng, i, suffix, lib) for i in range(ctx.n(1500, 20000))]
        ctx.run(exps, flavour, env={"SHARG_NO_VERSION_CHECK": None})
    ctx.assumptions.append("not judged: notices of programs whose version is not of the form a.b.c, a recorded version 0.0.0,"
                           " notices about one line of a record whose other line is malformed")
