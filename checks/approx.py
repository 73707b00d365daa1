"""C20: Approx.tla, ApproxTrace.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

MC = """INIT Init
NEXT Next
CONSTANTS M = %d U = %d T = %d
INVARIANTS Symmetric Reflexive Monotone None NaN Between Components Limits
CHECK_DEADLOCK FALSE
"""
TR = """INIT TraceInit
NEXT TraceNext
CONSTANTS U = 16 T = 1024
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""


def check(ctx):
    with ThreadPoolExecutor(2) as ex:
        def mcs():
            for m in [(12, 4, 8)] if ctx.quick else [(30, 4, 16), (40, 16, 10), (25, 1, 6)]:
                tlc_model(ctx, "ApproxMC", MC % m, workers=6)
        mc = ex.submit(mcs)
        jobs = [("approx_s", "approx_trace.cpp", dict(san=True, opt="-O0")), ("approx_o", "approx_trace.cpp", dict(opt="-O2"))]
        if not ctx.quick:
            jobs.append(("approx_c", "approx_trace.cpp", dict(opt="-O1", cxx="clang++")))
        bins = build(ctx, jobs)
        mc.result()
    record_and_validate(ctx, bins, "ApproxTrace", TR, nfiles=8 if ctx.quick else 24)


if __name__ == "__main__":
    main(sys.argv.pop(1), check)
