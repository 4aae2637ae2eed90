"""Runs the check of one property: python3 -m palm.check C11"""
import sys
import traceback

from . import build
from .check_base import CHECKS
from .report import Report

from . import registry  # noqa: F401


def main(argv):
    prop = argv[0]
    level, rule, floors, assumptions, f = CHECKS[prop]
    r = Report(prop, level, rule, floors)
    r.thorough = "thorough" in argv[1:]
    r.assumptions = list(assumptions)
    try:
        f(r)
    except build.CompileError as e:
        # a tree that does not compile has no behaviour to judge
        r.undecide("build", str(e)[-600:])
    return r.finish()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
