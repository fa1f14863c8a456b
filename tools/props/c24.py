"""C24: the update request is safe, single, in the background, and changes nothing about the parse."""
import os
import re
import shutil
import subprocess
import stat
from concurrent.futures import ThreadPoolExecutor
from drv import enc
from exp import Exp, Exc
import fstree as F
import c03
import spec as S

APPNAMES = ["app", "a", "A-b_c", "0", "-x", "--", "-", "_", "app_", "a" * 200, "rm", "-rf"]
HOMES = ["h", "h ome", "h'q", "h\"d", "h$(touch pwned)", "h`touch pwned`", "h;touch pwned;", "h\\", "h\\'", "h&x", "h|cat",
         "h>pwned", "h\ny", "ü", "-h", "h*", "h?", "h#x", "h'; touch pwned; '", "h'\"'\"'", "~", "$HOME", "h!x", "h(x)", "h{a,b}",
         "h\tt", "\udcff\udc80", "h'", "'h'", "'", "h%41"]
VERSIONS = ["1.2.3", "", "0.0.0", "10.20.30", "1.2.3-rc1", "1.2.3; touch pwned", "1.2.3$(touch pwned)", "$(touch pwned)", "1.2",
            "v1.2.3", "1.2.3\ntouch pwned", "'1.2.3'", "1.2.3 > pwned", "`touch pwned`", "1.2.3.4", "1..3", "99999999999.1.1",
            "1.2.3 [git 1a2b]", " 1.2.3", "1.2.3'x", "a.b.c", "1.2.3&x", "../..", "%s%n"]
URL = "https://seqan-update.informatik.uni-tuebingen.de/check/SeqAn-Sharg_Linux_64_"
REC = """#!/bin/sh
{ printf '%s\\0' "$@"; printf '\\n\\0'; } >> "$RECORD/calls"
echo "the download tool talks"; echo "and complains" >&2
"""


def shell_runs(ctx, todo):
    """todo: list of (command, home name, app); runs each by the real shell as nobody; yields the recorded calls."""
    # one recorder, written before any thread forks: a script that some process has open for writing cannot be executed
    rec = os.path.join(ctx.tmp, "rec")
    with open(rec, "w") as f:
        f.write(REC)
    os.chmod(rec, 0o755)

    def run(item):
        n, (cmd, cwdname) = item
        d = os.path.join(ctx.tmp, "scratch", "sh%d" % n)
        os.makedirs(d)
        os.chmod(d, 0o777)

        def drop():
            os.setgroups([])
            os.setgid(F.NOBODY)
            os.setuid(F.NOBODY)
        p = subprocess.run(["/bin/sh", "-c", cmd.encode("utf-8", "surrogateescape").replace(b"/usr/bin/env", rec.encode())],
                           cwd=d, preexec_fn=drop, env={"PATH": "/usr/bin:/bin", "RECORD": d}, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        calls = []
        try:
            with open(os.path.join(d, "calls"), "rb") as f:
                raw = f.read()
            calls = [c.split(b"\0")[:-1] for c in raw.split(b"\n\0")[:-1]]
        except OSError:
            pass
        extra = [x for x in os.listdir(d) if x != "calls"]
        shutil.rmtree(d)
        return calls, extra, p.stdout, p.stderr
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(run, enumerate(todo)))


def command_cases(ctx, rng):
    """Names, versions and directories of all kinds; the command handed to the shell is run by a real shell."""
    exps, seen = [], []
    for i in range(ctx.n(260, 4000)):
        base = ctx.scratch("c%d" % i)
        home = base + "/" + rng.choice(HOMES)
        app = rng.choice(APPNAMES)
        version = rng.choice(VERSIONS)
        os.mkdir(home.encode("utf-8", "surrogateescape"))
        wget = rng.choice([0, 0, 1])
        e = Exp(solo=True)
        e.op("env", "HOME", enc(home))
        e.op("sys", wget, 0, rng.choice([0, 256]), 0, "-")
        e.slot("s", "str", [""])
        e.parser("P", ["prog", "--version-check", "true", "v"], app=app, upd=1)
        e.op("info", "P", "version", enc(version))
        e.op("info", "P", "url", enc(rng.choice(["", "http://x/$(touch pwned)"])))
        e.add("pos", "P", "s")
        p = e.op("parse", "P")
        e.op("del", "P")
        e.tag = "command"
        e.note = {"home": home, "app": app, "version": version}

        def check(r, e=e, p=p, home=home, app=app, version=version, wget=wget):
            if r.parse_outcome(p) != "ok":
                return [("parse failed", "%r" % (r.parse_outcome(p),))]
            tests = [c for c in r.system if "https://" not in c]
            down = [c for c in r.system if "https://" in c]
            if len(down) != 1:
                return [("%d requests" % len(down), "%r" % r.system)]
            if len(tests) > 2:
                return [("other commands", "%r" % r.system)]
            for c in tests:
                seen.append((c, None, e, r))
            seen.append((down[0], (home, app, version, wget), e, r))
            return []
        e.check = check
        exps.append(e)
    ctx.run(exps, env={"SHARG_NO_VERSION_CHECK": None})
    tests = {}
    todo = []
    for c, info, e, r in seen:
        if info is None:
            if c in tests:
                continue
            tests[c] = 1
        todo.append((c, info, e, r))
    for (c, info, e, r), (calls, extra, out, err) in zip(todo, shell_runs(ctx, [(c, None) for c, _, _, _ in todo])):
        ctx.count("commands run by the shell")
        what = "%r ran %r %r" % (c, calls, err[:200])
        if extra:
            ctx.violation("the command had a side effect", "%s: %r" % (what, extra), e, r, "debug")
            continue
        if len(calls) != 1 or not calls[0] or out or err:
            ctx.violation("not exactly one silent command", what, e, r, "debug")
            continue
        a = calls[0]
        if info is None:
            if a not in ([b"-i", b"wget", b"--version"], [b"-i", b"curl", b"--version"]):
                ctx.violation("unexpected command", what, e, r, "debug")
            continue
        home, app, version, wget = info
        m = re.match(r"\d+\.\d+\.\d+", version)
        target = (home + "/.config/seqan/" + app + ".version").encode("utf-8", "surrogateescape")
        url = (URL + app + "_" + (m.group() if m else "0.0.0")).encode()
        rest = [x for x in a[2:] if x not in (target, url)]
        if a[:2] != [b"-i", b"curl" if wget else b"wget"] or a.count(target) != 1 or a.count(url) != 1:
            ctx.violation("wrong arguments of the download", "%s; expected %r and %r" % (what, target, url), e, r, "debug")
        elif a.index(target) == 0 or a[a.index(target) - 1] not in (b"-O", b"-o"):
            ctx.violation("the target is not the argument of the output option", what, e, r, "debug")
        elif not all(re.fullmatch(rb"--?[a-zA-Z\-]+(=\d+)?|\d+", x) for x in rest):
            ctx.violation("unexpected arguments", what, e, r, "debug")


CONTENT = ["-", "9.9.9\n9.9.9\n", "UNREGISTERED_APP\n", "\0\0\0", "<html>", "x" * 100000, "1" * 1000000, "\n" * 1000, "1.2.3"]


def equality_cases(ctx, rng):
    """The same program with and without the check."""
    exps = []
    for i in range(ctx.n(700, 9000)):
        sp = S.rand_spec(rng, required=0.2)
        ln = S.rand_line(rng, sp)
        bad = c03.inject(rng, sp, ln, at_end=False) if rng.random() < 0.4 else None
        av = ln.argv()
        if len(av) < 2:
            continue
        ask = rng.random() < 0.8
        if rng.random() < 0.12:
            av.insert(1, rng.choice(["-h", "--version", "--copyright", "--export-help=man", "-hh"]))
        if ask:
            av[1:1] = ["--version-check", "true"]
        base = ctx.scratch("q%d" % i)
        wget, curl, call = rng.choice([0, 0, 1, 127]), rng.choice([0, 1]), rng.choice([0, 0, 1, 256, -1])
        delay = rng.choice([0, 0, 0, 1, 5, 20])
        pair = {}
        for which in ("without", "with"):
            e = Exp(solo=True)
            home = base + "/" + which
            os.mkdir(home)
            e.op("env", "HOME", enc(home))
            e.op("sys", wget, curl, call, delay, enc(rng.choice(CONTENT)) if which == "with" else "-")
            if not ask:
                e.op("mkdir", enc(home + "/.config/seqan"))
                e.op("cookie", enc(home + "/.config/seqan/app_dev.timestamp"), 10 ** 6, enc("ALWAYS"))
            sp.slots(e)
            e.parser("P", av, upd=1 if which == "with" else 0)
            sp.decl(e)
            p = e.op("parse", "P")
            e.op("del", "P")
            e.tag = "equality " + which
            e.note = {"argv": av}

            def check(r, which=which, pair=pair, p=p, none=wget and curl):
                # pages name the option only when it can be used: not part of the comparison
                out = re.sub(r"(?s)--version-check.*?(?=\n\n|\n<|\n\.|$)", "", r.out)
                o = r.parse_outcome(p)
                pair[which] = (o if not isinstance(o, Exc) else (o.cls, o.what), r.values, r.exit_values, out if o != "exit"
                               else "", r.err, r.status)
                if which == "without":
                    if r.system:
                        return [("request without permission", "%r" % r.system)]
                    return []
                down = sum("https://" in c for c in r.system)
                ctx.count("requests", down)
                if down > 1 or len(r.system) > 3:
                    return [("more than one request", "%r" % r.system)]
                if o not in ("exit",) and not isinstance(o, Exc) and down != (0 if none else 1):
                    return [("no request", "%r" % r.system)]
                a, b = pair["without"], pair["with"]
                ctx.count("compared: " + (a[0] if isinstance(a[0], str) else "error"))
                if a != b:
                    k = [x != y for x, y in zip(a, b)].index(True)
                    return [("the check changes the %s" % ["outcome", "values", "values", "output", "error output",
                                                            "exit status"][k], "%r vs %r" % (a[k], b[k]))]
                return []
            e.check = check
            exps.append(e)
    ctx.run(exps, env={"SHARG_NO_VERSION_CHECK": None})


def timing_cases(ctx, rng):
    """A slow download delays neither parsing nor (beyond its bound) destruction."""
    exps = []
    for i in range(ctx.n(16, 64)):
        base = ctx.scratch("t%d" % i)
        delay = [2500, 2500, 9000][i % 3]
        e = Exp(solo=True)
        e.op("env", "HOME", enc(base))
        e.op("sys", 0, 0, 0, delay, "-")
        e.slot("s", "str", [""])
        args = ["app", "--version-check", "true", "v"]
        if i % 4 == 3:
            args.append("--unknown")
        e.parser("P", args, upd=1)
        e.add("pos", "P", "s")
        a = e.op("clock")
        p = e.op("parse", "P")
        b = e.op("clock")
        e.op("del", "P")
        c = e.op("clock")
        e.tag = "timing"

        def check(r, a=a, b=b, c=c, delay=delay):
            t1, t2 = int(r.ops[b]) - int(r.ops[a]), int(r.ops[c]) - int(r.ops[b])
            ctx.count("slow downloads")
            bad = []
            if t1 >= 2000:
                bad.append(("parsing waits for the download", "%d ms with a download of %d ms" % (t1, delay)))
            if t2 > 7000:
                bad.append(("destruction waits without bound", "%d ms with a download of %d ms" % (t2, delay)))
            return bad
        e.check = check
        exps.append(e)
    ctx.run(exps, env={"SHARG_NO_VERSION_CHECK": None}, alarm=40, jobs=16)


def race_cases(ctx, rng):
    """Under ThreadSanitizer: the background call runs during parsing, moves and destruction."""
    exps = []
    for i in range(ctx.n(240, 4000)):
        base = ctx.scratch("r%d" % i)
        e = Exp(solo=True)
        e.op("env", "HOME", enc(base))
        alive = []
        for k in range(rng.randint(1, 4)):
            e.op("sys", 0, 0, rng.choice([0, 1]), rng.choice([0, 0, 1, 3, 10, 30]),
                 rng.choice(["-", enc("1.0.0\n1.0.0\n"), enc("x" * 5000)]))
            n = "P%d" % k
            e.slot("s%d" % k, "str", [""])
            e.parser(n, ["app", "--version-check", "1", "v"] + rng.choice([[], [], ["--unknown"]]), upd=1,
                     app=rng.choice(["app", "app", "other"]))
            e.add("pos", n, "s%d" % k)
            e.op("info", n, "version", enc("1.2.3"))
            e.op("parse", n)
            if rng.random() < 0.4:
                e.op("move", n, n + "m", rng.choice(["del", "keep"]))
                n += "m"
            if rng.random() < 0.3:
                e.op("sleep", rng.choice([1, 5]))
            if rng.random() < 0.7:
                e.op("del", n)
            else:
                alive.append(n)
        if rng.random() < 0.5:
            rng.shuffle(alive)
            for n in alive:
                e.op("del", n)
        if rng.random() < 0.2:   # the program ends while the call is running
            e.parser("Z", ["app", "--version-check", "1", "-h"], upd=1)
            e.op("sys", 0, 0, 0, rng.choice([0, 1, 5]), "-")
            e.op("parse", "Z")
        e.tag = "threads"

        def check(r):
            ctx.count("background calls", sum("https://" in c for c in r.system))
            return []
        e.check = check
        exps.append(e)
    ctx.run(exps, "tsan", env={"SHARG_NO_VERSION_CHECK": None})


def main(ctx):
    ctx.rule = ("(1) odd application names, versions and home directories: the command handed to the shell is run by a real"
                " shell (as nobody, /usr/bin/env replaced by a recorder) and must be exactly one download with the right"
                " arguments; (2) random programs with and without the check must behave alike; (3) slow downloads must not"
                " delay; (4) ThreadSanitizer with delays, moves and destruction; non-trivial: every case")
    ctx.build("debug", "tsan")
    command_cases(ctx, ctx.rng)
    equality_cases(ctx, ctx.rng)
    timing_cases(ctx, ctx.rng)
    race_cases(ctx, ctx.rng)
