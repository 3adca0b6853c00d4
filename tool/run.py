#!/usr/bin/env python3
"""run.py ID [--replay FILE]

Builds the monitors against the working tree of /repo (or $VERIF_REPO), runs
them, and reports: exit 0 held, 1 violated (VIOLATION line), 2 no answer.
Environment: VERIF_SEED, VERIF_TIER (quick, thorough), VERIF_REPO."""
import json
import os
import shutil
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
import special


def default(c, replay):
    c.monitors(c.build("./cmd/svbmon", "svbmon"), replay=replay)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop, replay = args[0], None
    if "--replay" in sys.argv:
        replay = json.load(open(args[1]))
    if "avx2" not in common.cpu_flags() or "avx" not in common.cpu_flags():
        os.environ["SVB_NOFAST"] = "1"
    c = common.Check(prop)
    try:
        getattr(special, prop, default)(c, replay)
        code = c.finish(replaying=replay is not None)
    except common.Inconclusive as e:
        print("NO ANSWER property=%s: %s" % (prop, e))
        code = 2
        # what was seen before still counts
        if c.violations:
            code = c.finish(replaying=replay is not None)
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)
    return code


sys.exit(main())
