"""C22: an update request is started exactly when developer, environment, user and stored state allow it."""
import os
from drv import enc
from exp import Exp, Exc

APPS = ["app", "app2", "App", "app_dev", "app_usr", "a-p"]
DAY = 86400


class Store:
    """What is stored for one application in one directory."""

    def __init__(self):
        self.state = None       # None: no file; (age in seconds or None for garbage, decision)

    def decide(self, dev, env, switch, tty, answer):
        """(performed, prompted, new state or None)"""
        if not dev or env or switch is False:
            return False, False, None
        if switch is True:
            return True, False, None
        if self.state is not None:
            age, decision = self.state
            if age is not None and age < DAY:
                return False, False, None
            if decision == "NEVER":
                return False, False, None
            if decision == "ALWAYS":
                return True, False, (0, "ALWAYS")
        if not tty:
            return False, False, (0, "ASK")
        d = {"a": "ALWAYS", "n": "NEVER"}.get(answer[:1], "ASK")
        return answer[:1] in ("a", "y"), True, (0, d)


def one(ctx, rng, n, suffix):
    e = Exp(solo=True)
    base = ctx.scratch("%s/%d" % (suffix, n))
    home, tmp = base + "/home", base + "/tmp"
    os.mkdir(tmp)
    which = rng.choice(["ioe"] * 5 + ["ie", "i", "e", "io", "oe", "o", "", "", ""])
    tty = "i" in which and "e" in which
    where = rng.choice(["home"] * 6 + ["unset", "empty", "file", "missing"])
    conf = home + "/.config/seqan" if where == "home" else tmp
    if where == "home":
        os.mkdir(home)
        e.op("env", "HOME", enc(home))
    elif where == "file":
        open(home, "w").close()
        e.op("env", "HOME", enc(home))
    elif where == "missing":
        e.op("env", "HOME", enc(home))
    elif where == "unset":
        e.op("unset", "HOME")
    else:
        e.op("env", "HOME", "%")
    e.op("env", "TMPDIR", enc(tmp))
    stores = {}
    steps = []
    answers = ""
    head = len(e.lines)
    apps = rng.sample(APPS, rng.choice([1, 1, 2, 3]))
    wget, curl = rng.choice([(0, 0), (0, 1), (1, 0), (0, 0), (1, 1)])
    e.op("sys", wget, curl, rng.choice([0, 1]), 0, "-")
    for k in range(rng.choice([1, 1, 2, 3, 4, 6])):
        app = rng.choice(apps)
        st = stores.setdefault(app, Store())
        f = "%s/%s_%s.timestamp" % (conf, app, suffix)
        r = rng.random()
        if r < 0.5:  # the state left by an earlier day
            e.op("mkdir", enc(conf))
            dec_ = rng.choice(["ALWAYS", "ALWAYS", "NEVER", "ASK", "ASK", "always", "garbage", "", "ALWAYS ", "NEVERMORE", "NEVER ", "never", "ALWAYSN", "ASK ALWAYS"])
            if rng.random() < 0.12:
                e.op("mkfile", enc(f), enc(rng.choice(["abc\n", "\n", "-\n", "x12\n", "+123\n", " 123\n", "1e999\n", "-1e999\n", ".5\n", "x" * 400 + "\n"]) + dec_ + rng.choice(["", "\n"])))
                st.state = (None, dec_)
            else:
                age = rng.choice([0, 1, 100, 3600, DAY - 60, DAY - 600, DAY, DAY, DAY + 1, DAY + 100, 2 * DAY, 30 * DAY, 10 ** 9, -100,
                                  -10 ** 6])
                e.op("cookie", enc(f), age, enc(dec_))
                st.state = (age, dec_)
        elif r < 0.55 and st.state is not None:
            e.op("rm", enc(f))
            st.state = None
        dev = rng.random() < 0.9
        env = rng.random() < 0.1
        e.op("env", "SHARG_NO_VERSION_CHECK", enc(rng.choice(["1", "", "0"]))) if env else e.op("unset",
                                                                                            "SHARG_NO_VERSION_CHECK")
        switch = rng.choice([None] * 5 + [True, False])
        answer = rng.choice(["a", "n", "y", "s", "always", "no", "yes", "x", "Y", "q", "", "", "A", "N", " a", "-y", "NEVER", "sa"])
        performed, prompted, new = st.decide(dev, env, switch, tty, answer)
        if prompted:
            answers += answer + "\n"
        if new:
            st.state = new
        b = e.op("syscalls")
        args = ["app", "v"]
        if switch is not None:
            sw = ["--version-check", rng.choice(["true", "1"] if switch else ["false", "0"])]
            args = ["app"] + sw + ["v"] if rng.random() < 0.5 else ["app", "v"] + sw
        e.slot("s%d" % k, "str", ["x"])
        e.parser("P%d" % k, args, app=app, upd=1 if dev else 0)
        e.add("pos", "P%d" % k, "s%d" % k)
        p = e.op("parse", "P%d" % k)
        now = e.op("now")
        e.op("del", "P%d" % k)
        a = e.op("syscalls")
        e.op("snap", "h%d" % k, enc(conf))
        steps.append((app, f, b, p, a, now, performed, prompted, new, dict((x, s.state) for x, s in stores.items())))
        ctx.count("performed" if performed else "not performed")
        if prompted:
            ctx.count("prompts")
    if which:
        e.lines.insert(0, "tty 80 %s %s" % (enc(answers), which))
    off = 1 if which else 0
    tests = 1 if wget == 0 else 2
    each = tests + (0 if wget and curl else 1)
    e.tag = "%s %s %s" % (suffix, "terminal" if tty else "no terminal" if not which else "half a terminal", where)

    def check(r):
        bad = []
        prompts = r.out.count("[a, n, y, s]") + r.err.count("[a, n, y, s]")
        want = sum(s[7] for s in steps)
        if prompts != want:
            bad.append(("asked %s often" % ("too" if prompts > want else "not"), "%d prompts instead of %d" % (prompts, want)))
        downloads = [c for c in r.system if "https://" in c]
        for k, (app, f, b, p, a, now, performed, prompted, new, states) in enumerate(steps):
            if r.ops.get(p + off) != "" or (a + off) not in r.ops:
                bad.append(("parse did not succeed", "step %d: %r" % (k, r.parse_outcome(p + off))))
                break
            n = int(r.ops[a + off]) - int(r.ops[b + off])
            if n != (each if performed else 0):
                bad.append(("update request %s" % ("missing" if performed else "not allowed"), "step %d: %d commands" % (k, n)))
            # the stored state of all applications
            snap = r.snaps.get("h%d" % k, {})
            for x, state in states.items():
                name = "%s_%s.timestamp" % (x, suffix)
                got = snap.get(name)
                if state is None:
                    if got is not None:
                        bad.append(("state stored without reason", "step %d: %s %r" % (k, name, got)))
                    continue
                if got is None:
                    bad.append(("state not stored", "step %d: %s" % (k, name)))
                    continue
                t, _, d = got[4].partition("\n")
                if x == app and new:
                    if not t.isdigit() or abs(int(t) - int(r.ops[now + off])) > 15 or d.strip() != new[1]:
                        bad.append(("wrong state stored", "step %d: %r instead of %r" % (k, got[4], new)))
                elif d.rstrip("\n") != state[1].rstrip("\n"):
                    bad.append(("stored state changed", "step %d: %s: %r instead of %r" % (k, name, d, state)))
            others = [x for x in snap if x != "." and x not in ["%s_%s.timestamp" % (y, suffix) for y in states]]
            if others:
                bad.append(("other files", "step %d: %r" % (k, others)))
        if not bad and len(downloads) != (0 if wget and curl else sum(s[6] for s in steps)):
            bad.append(("number of requests", "%d" % len(downloads)))
        return bad[:3]
    e.check = check
    return e


def main(ctx):
    ctx.rule = ("sequences of parses of one or several applications with random developer setting, environment, switch, stored"
                " state (ages around a day, all decisions, garbage), terminal and answers; a model of the decision predicts for"
                " every parse whether a request is started, a question asked and what is stored; non-trivial: every sequence")
    ctx.build("debug", "release0", groups=[0, 1])
    for flavour, suffix in (("debug", "dev"), ("release0", "usr")):
        exps = [one(ctx, ctx.rng, i, suffix) for i in range(ctx.n(800, 12000))]
        ctx.run(exps, flavour, env={"SHARG_NO_VERSION_CHECK": None})
    ctx.assumptions.append("a stored decision without a time is not judged")
