#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]: decides property ID on /repo's current tree."""
import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.path.insert(0, os.path.join(HERE, "tools", "props"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    import core
    if a.replay:
        import build
        import drv
        rec = json.load(open(a.replay))
        d = tempfile.mkdtemp()
        try:
            if rec["flavour"] == "fuzz":
                import subprocess
                exe, _ = build.build_fuzzer(d)
                with open(d + "/input", "wb") as f:
                    f.write(bytes.fromhex(rec["extra"]["input"]))
                return subprocess.run([exe, d + "/input"], env=dict(os.environ, FUZZ_ORACLE=rec["extra"]["oracle"])).returncode
            exe, _ = build.build(d, rec["flavour"] or "debug")
            r = drv.run_cases(exe, [("r", [l.replace("@ID@", "r") for l in rec["lines"]])])["r"]
        finally:
            shutil.rmtree(d, ignore_errors=True)
        print("recorded: %s: %s" % (rec["key"], rec["message"]))
        for i, l in enumerate(rec["lines"]):
            print("  %3d %s\n        -> %r" % (i, l, r.ops.get(i)))
        print("status", r.status, "values", r.values, r.exit_values)
        print("stdout:\n" + r.out + "\nstderr:\n" + r.err)
        return 0
    mod = importlib.import_module(a.id.lower())
    ctx = core.Ctx(a.id, a.tier, a.seed)
    try:
        mod.main(ctx)
    except BaseException:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        raise
    return ctx.finish(getattr(mod, "MINIMUM", 100))


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as ex:
        import traceback
        traceback.print_exc()
        print("check failed: %r" % ex)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
