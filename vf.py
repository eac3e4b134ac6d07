#!/usr/bin/env python3
"""Checks of mutagenyx against its TLA+ specification.

  vf.py check <property> [--tier quick|thorough]     one property; exit 0 held, 1 violated, 2 no answer
  vf.py setup                                        build what the checks need
  vf.py replay <file>                                run the recorded request of a violation again
"""
import argparse
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from common import *                 # noqa
import checks                        # noqa


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("property")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    c.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    sub.add_parser("setup")
    r = sub.add_parser("replay")
    r.add_argument("file")
    a = ap.parse_args()
    if a.cmd == "setup":
        build_harness()
        build_cli()
        build_stub()
        return 0
    if a.cmd == "replay":
        return checks.replay(json.load(open(a.file)))
    return checks.run(a.property, a.tier, a.seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print("NO ANSWER: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
