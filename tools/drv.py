"""Cases for the driver: encoding, running them in parallel, reading the recorded events."""
import os
import re
import subprocess
import tempfile
import threading

SAFE = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-./:=")


def enc(s):
    if isinstance(s, str):
        s = s.encode("utf-8", "surrogateescape")
    if not s:
        return "%"
    return "".join(chr(c) if c in SAFE else "%%%02x" % c for c in s)


_hex = re.compile("%([0-9a-f]{2})")


def dec(s):
    if s == "%":
        return ""
    b = _hex.sub(lambda m: chr(int(m.group(1), 16)), s).encode("latin-1")
    return b.decode("utf-8", "surrogateescape")


class Exc:
    def __init__(self, cls, base, what):
        self.cls, self.base, self.what = cls, base, what

    def __repr__(self):
        return "Exc(%s,%s,%r)" % (self.cls, self.base, self.what)


class Result:
    """What one case did."""
    __slots__ = ("id", "status", "ops", "began", "values", "exit_values", "probes", "system", "sysdone", "snaps",
                 "complete", "out", "err", "destroyed")

    def __init__(self):
        self.ops = {}         # op index -> payload string | Exc
        self.began = []       # indices of operations that began
        self.values = {}
        self.exit_values = {}
        self.probes = []
        self.system = []
        self.sysdone = 0
        self.snaps = {}
        self.complete = False
        self.destroyed = False
        self.out = self.err = ""

    @property
    def exit_code(self):
        """Exit code of an exit by the library (None: the program ran to its end)."""
        if self.status[0] == "exit" and not self.complete:
            return self.status[1]
        return None

    def sanitizer(self):
        """A short description of a sanitizer report / abnormal death, or None."""
        e = self.err
        for pat in (r"ERROR: AddressSanitizer: ([^\n]*)", r"runtime error: ([^\n]*)",
                    r"WARNING: ThreadSanitizer: ([^\n]*)", r"(FATAL: ThreadSanitizer[^\n]*)", r"Assertion ([^\n]*) failed",
                    r"(terminate called[^\n]*)", r"ERROR: LeakSanitizer: ([^\n]*)"):
            m = re.search(pat, e)
            if m:
                return re.sub(r"0x[0-9a-f]+|\(pid=\d+\)", "..", m.group(0))
        if self.status[0] == "sig":
            return "killed by signal %d" % self.status[1]
        if self.status[0] == "exit" and self.status[1] not in (0, 77):
            return "process ended with status %d" % self.status[1]
        return None

    def hung(self):
        return self.status == ("sig", 14)


def parse_results(text):
    res = {}
    cur = None
    for l in text.split("\n"):
        if not l:
            continue
        t = l.split(" ")
        k = t[0]
        if k == "CASE":
            cur = Result()
            cur.id = t[1]
            cur.status = (t[2], int(t[3]))
            res[cur.id] = cur
        elif k == "B":
            cur.began.append(int(t[1]))
        elif k == "R":
            i = int(t[1])
            if t[2] == "ok":
                cur.ops[i] = t[3] if len(t) > 3 else ""
            else:
                cur.ops[i] = Exc(dec(t[3]), t[4], dec(t[5]))
        elif k == "V":
            cur.values[t[1]] = t[2]
        elif k == "XV":
            cur.exit_values[t[1]] = t[2]
        elif k == "P":
            cur.probes.append((dec(t[1]), dec(t[2])))
        elif k == "S":
            cur.system.append(dec(t[1]))
        elif k == "SC":
            cur.sysdone += 1
        elif k == "F":
            cur.snaps.setdefault(t[1], {})[dec(t[2])] = (t[3], int(t[4]), int(t[5]), t[6], dec(t[7]))
        elif k == "Z":
            cur.complete = True
        elif k == "D":
            cur.destroyed = True
        elif k == "OUT":
            cur.out = dec(t[1])
        elif k == "ERR":
            cur.err = dec(t[1])
    return res


class HarnessError(Exception):
    pass


SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=99:abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1",
    "TSAN_OPTIONS": "exitcode=98:halt_on_error=0:report_thread_leaks=0:die_after_fork=0",
}


def run_cases(driver, cases, jobs=8, mt=0, env=None, alarm=20, chunk=None, max_hung=2):
    """cases: list of (id, [lines]); returns {id: Result}. Every case has a result, or HarnessError is raised. A
    driver process stops after max_hung cases without an answer in time: the rest of its cases has no result then."""
    if not cases:
        return {}
    # no random variation of anything inherited from the caller's environment
    e = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent-home", "SHARG_NO_VERSION_CHECK": "1", "LC_ALL": "C",
         "TZ": "UTC", "DRV_ALARM": str(alarm), "DRV_MAX_HUNG": str(max_hung)}
    e.update(SAN_ENV)
    if env:
        e.update(env)
    e = {k: v for k, v in e.items() if v is not None}
    if chunk is None:
        chunk = max(1, min(400, (len(cases) + jobs - 1) // jobs))
    if mt:
        chunk = max(mt, chunk // mt * mt)
    chunks = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]
    results = {}
    lock = threading.Lock()
    errors = []

    with tempfile.TemporaryDirectory(prefix="shargv") as tmp:
        def work(k):
            cf = os.path.join(tmp, "c%d" % k)
            of = os.path.join(tmp, "o%d" % k)
            with open(cf, "w") as f:
                for cid, lines in chunks[k]:
                    f.write("CASE %s\n%s\nEND\n" % (cid, "\n".join(lines)))
            cmd = [driver, cf, of]
            if mt:
                cmd += ["--mt", str(mt)]
            p = subprocess.run(cmd, env=e, cwd=tmp, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE)
            if p.returncode != 0:
                with lock:
                    errors.append("driver failed: %d %s" % (p.returncode, p.stderr[-2000:].decode("utf-8", "replace")))
                return
            r = parse_results(open(of).read())
            os.unlink(of)
            os.unlink(cf)
            with lock:
                results.update(r)

        todo = list(range(len(chunks)))

        def loop():
            while True:
                with lock:
                    if not todo:
                        return
                    k = todo.pop(0)
                try:
                    work(k)
                except Exception as ex:  # noqa
                    with lock:
                        errors.append(repr(ex))

        th = [threading.Thread(target=loop) for _ in range(min(jobs, len(chunks)))]
        for t in th:
            t.start()
        for t in th:
            t.join()
    if errors:
        raise HarnessError(errors[0])
    missing = [c for c, _ in cases if c not in results]
    if missing and not mt and not any(r.hung() for r in results.values()):
        raise HarnessError("no result for case " + missing[0])
    return results
