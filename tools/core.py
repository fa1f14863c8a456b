"""What all checks share: building, running, verdicts, known findings, evidence."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

import build as B
from exp import run_exps, Exp  # noqa: F401
from drv import HarnessError, run_cases  # noqa: F401

VERIF = B.VERIF
with open(os.path.join(VERIF, "harness", "fuzz.dict")) as _f:
    FUZZ_WORDS = [l.strip()[1:-1].replace("\\x0a", "\n").encode() for l in _f if l.strip()]


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.tmp = tempfile.mkdtemp(prefix="sharg-%s-" % prop)
        os.chmod(self.tmp, 0o755)
        self.t0 = time.time()
        self.drivers = {}
        self.evaluations = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.violations = {}
        self.known_seen = {}
        self.build_s = 0.0
        self.crash_key = None
        self.assumptions = []
        self.rule = ""
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            self.known = {k["key"]: k for k in json.load(f)["findings"] if k["property"] == prop}

    # -- building
    def build(self, *flavours, groups=None):
        t = time.time()
        with ThreadPoolExecutor(len(flavours)) as ex:
            for fl, (exe, _) in zip(flavours, ex.map(lambda f: B.build_fuzzer(self.tmp + "/fuzzer") if f == "fuzz" else
                                                     B.build(self.tmp, f, groups), flavours)):
                self.drivers[fl] = exe
        self.build_s += time.time() - t

    def scratch(self, name):
        d = os.path.join(self.tmp, "scratch", name)
        os.makedirs(d)
        p = d
        while p != self.tmp:
            os.chmod(p, 0o755)
            p = os.path.dirname(p)
        return d

    def n(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    # -- observing
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def observe(self, exp, nontrivial=True):
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(hashlib.sha1("\n".join(exp.lines).encode()).digest())
        if exp.tag:
            self.count("class:" + exp.tag)
        if len(self.samples) < 3 or (len(self.samples) < 8 and self.rng.random() < 0.01):
            self.samples.append({"ops": exp.lines[:30], "class": exp.tag})

    def run(self, exps, flavour="debug", known_as=None, **kw):
        """Runs the experiments and applies their oracles. known_as: key of any crash of these experiments."""
        self.crash_key = known_as
        for e, r in run_exps(self.drivers[flavour], exps, **kw):
            self.observe(e)
            self.judge(e, r, flavour)

    def judge(self, e, r, flavour):
        san = r.sanitizer()
        if (r.hung() or san) and self.crash_key:
            self.violation(self.crash_key, "abnormal end: %s" % (san or "hang"), e, r, flavour)
            return
        if r.hung():
            self.violation("hang", "no answer within the time limit", e, r, flavour)
            return
        if san:
            self.violation("crash: " + san[:160], "abnormal end: " + san, e, r, flavour)
            return
        for key, msg in (e.check(r) if e.check else []) or []:
            self.violation(key, msg, e, r, flavour)

    def violation(self, key, msg, e=None, r=None, flavour=None, extra=None):
        if key in self.known:
            self.known_seen[key] = self.known_seen.get(key, 0) + 1
            return
        v = self.violations.setdefault(key, {"n": 0})
        v["n"] += 1
        if v["n"] == 1:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s.json" % (self.prop, hashlib.sha1(key.encode()).hexdigest()[:10]))
            rec = {"property": self.prop, "key": key, "message": msg, "flavour": flavour, "seed": self.seed,
                   "tier": self.tier}
            if e is not None:
                rec["lines"] = e.lines
                rec["note"] = {k: repr(x) for k, x in e.note.items()}
            if r is not None:
                rec["observed"] = {"ops": {i: repr(x) for i, x in r.ops.items()}, "values": r.values,
                                   "exit_values": r.exit_values, "status": r.status, "out": r.out[:4000],
                                   "err": r.err[:4000], "probes": r.probes, "system": r.system}
            if extra:
                rec["extra"] = extra
            with open(path, "w") as f:
                json.dump(rec, f, indent=1, default=repr)
            v["path"], v["msg"] = path, msg

    def fuzz(self, oracle, runs, jobs=6):
        """Coverage-guided search over whole command lines (harness/fuzz.cpp) with the given oracle."""
        def job(k):
            rng = random.Random("fuzz/%s/%d/%d" % (oracle, self.seed, k))
            d = os.path.join(self.tmp, "fuzz%d" % k)
            os.makedirs(d + "/corpus")
            os.makedirs(d + "/found")
            for n in range(150):    # the search starts from random words of the dictionary
                words = [rng.choice(FUZZ_WORDS) + rng.choice([b"", b"", b"", rng.choice(FUZZ_WORDS)])
                         for _ in range(rng.choice([1, 2, 3, 4, 6]))]
                with open("%s/corpus/%d" % (d, n), "wb") as f:
                    f.write(bytes([rng.randrange(256), rng.randrange(256)]) + b"\n".join(words))
            env = dict(os.environ, FUZZ_ORACLE=oracle, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1")
            p = subprocess.run([self.drivers["fuzz"], "-runs=%d" % runs, "-seed=%d" % (self.seed * 100 + k + 1), "-max_len=100",
                                "-len_control=0", "-dict=" + VERIF + "/harness/fuzz.dict", "-timeout=120", "-rss_limit_mb=4000",
                                "-print_final_stats=1", "-artifact_prefix=" + d + "/found/", d + "/corpus"],
                               env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=d)
            out = p.stderr.decode("utf-8", "replace")
            found = [open(os.path.join(d, "found", x), "rb").read() for x in os.listdir(d + "/found")]
            shutil.rmtree(d)
            return p.returncode, out, found
        with ThreadPoolExecutor(jobs) as ex:
            results = list(ex.map(job, range(jobs)))
        for rc, out, found in results:
            m = re.search(r"stat::number_of_executed_units: *(\d+)", out)
            n = int(m.group(1)) if m else 0
            self.evaluations += n
            self.count("fuzzed command lines", n)
            cov = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", out)
            if cov:
                for name, x in zip(("coverage edges (fuzzing, best job)", "coverage features (fuzzing, best job)"), cov[-1]):
                    self.counters[name] = max(self.counters.get(name, 0), int(x))
                for k in range(int(cov[-1][2])):    # inputs that reached something new are distinct by construction
                    self.distinct.add(("fuzz", id(out), k))
            if rc == 0 and n:
                continue
            if not found:
                raise HarnessError("the fuzz target did not run: " + out[-800:])
            m = re.search(r"FUZZ-VIOLATION (\w+): (.*)", out)
            if m:
                key, msg = "fuzzing: " + re.split(r"[:(]| for \[", m.group(2))[0].strip()[:60], m.group(2)
            else:
                m = re.search(r"(SUMMARY|ERROR): .*|runtime error: .*|Assertion .*", out)
                key, msg = "fuzzing: crash", (m.group() if m else out[-500:])
            self.violation(key, msg[:800], flavour="fuzz", extra={"input": found[0].hex(), "oracle": oracle, "output": out[-3000:]})

    @staticmethod
    def short(o):
        """Long texts and lists of a sample are cut: the evidence has to stay readable."""
        if isinstance(o, str):
            return o if len(o) <= 400 else o[:300] + "... (%d characters)" % len(o)
        if isinstance(o, bytes):
            return Ctx.short(repr(o))
        if isinstance(o, dict):
            return {Ctx.short(k) if isinstance(k, str) else k: Ctx.short(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [Ctx.short(x) for x in o[:60]] + (["... (%d elements)" % len(o)] if len(o) > 60 else [])
        return o

    # -- the end
    def finish(self, minimum=1):
        shutil.rmtree(self.tmp, ignore_errors=True)
        wall = time.time() - self.t0
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
               "samples": self.short(self.samples), "observed": self.short(dict(sorted(self.counters.items()))),
               "build_s": round(self.build_s, 1)}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2),
              "violations": sum(v["n"] for v in self.violations.values())}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        for k, f in self.known.items():
            print("KNOWN-FINDING: property=%s %s%s" % (self.prop, f["what"], "" if self.known_seen.get(k) else
                                                       " [not observed in this run]"))
        shown = 0
        for k, v in sorted(self.violations.items(), key=lambda x: -x[1]["n"]):
            if shown < 8:
                print("VIOLATION property=%s replay=%s" % (self.prop, v["path"]))
                print("  %s: %s (%d times)" % (k[:200], v["msg"][:600], v["n"]))
            shown += 1
        print("%s %s seed=%d: %d evaluations, %d distinct, %d violation(s), %.1f s (build %.1f s)"
              % (self.prop, self.tier, self.seed, self.evaluations, len(self.distinct), len(self.violations), wall,
                 self.build_s))
        if self.violations:
            return 1
        if self.evaluations < minimum:
            print("check observed too little: %d < %d" % (self.evaluations, minimum))
            return 2
        return 0
