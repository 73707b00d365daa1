"""C13: Rect.tla, RectTrace.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

MC = """INIT Init
NEXT Next
CONSTANTS N = %d D = %d
INVARIANTS Geometry Diff
CHECK_DEADLOCK FALSE
"""
TR = """INIT TraceInit
NEXT TraceNext
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""


def check(ctx):
    with ThreadPoolExecutor(2) as ex:
        def mcs():
            for n, d in [(5, 1), (3, 2)] if ctx.quick else [(8, 1), (4, 2), (2, 3)]:
                tlc_model(ctx, "RectMC", MC % (n, d), workers=4)
        mc = ex.submit(mcs)
        bins = build(ctx, [("rect_s", "rect_trace.cpp", dict(san=True, opt="-O0")), ("rect_o", "rect_trace.cpp", dict(opt="-O2"))])
        mc.result()
    record_and_validate(ctx, bins, "RectTrace", TR, nfiles=8 if ctx.quick else 24)


if __name__ == "__main__":
    main(sys.argv.pop(1), check)
