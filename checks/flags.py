"""C12: Flags.tla, FlagsTrace.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

MC = """SPECIFICATION MCSpec
CONSTANTS Regs = {1, 2} W = %d
INVARIANTS TypeOK Algebra
CHECK_DEADLOCK FALSE
"""
TR = """INIT TraceInit
NEXT TraceNext
CONSTANT Regs = {1, 2, 3}
INVARIANT TypeOK
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""


def check(ctx):
    with ThreadPoolExecutor(2) as ex:
        mc = ex.submit(tlc_model, ctx, "FlagsMC", MC % (3 if ctx.quick else 4), workers=2)
        bins = build(ctx, [("flags_s", "flags_trace.cpp", dict(san=True, opt="-O0")), ("flags_o", "flags_trace.cpp", dict(opt="-O2")),
                           ("flags_c", "flags_trace.cpp", dict(opt="-O1", cxx="clang++"))])
        mc.result()
    record_and_validate(ctx, bins, "FlagsTrace", TR, nfiles=8 if ctx.quick else 16)


if __name__ == "__main__":
    main(sys.argv.pop(1), check)
