#!/usr/bin/env python3
"""usage: check.py PROPERTY [quick|thorough]      (VERIF_TIER, VERIF_SEED)

Decides one property of properties.jsonl on /repo's working tree.
exit 0: held; 1: VIOLATION line printed; 2: the check itself failed.
"""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
sys.dont_write_bytecode = True
import checks  # noqa: E402
import core  # noqa: E402
import vp  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    run = core.Run(pid, tier)
    try:
        getattr(checks, pid)(run)
        return run.finish()
    except vp.Failure as e:
        print("check of %s failed: %s" % (pid, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        vp.cleanup()


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
