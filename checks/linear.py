"""C16: Linear.tla, LinearTrace.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

MC = """INIT Init
NEXT Next
CONSTANTS R = %d C = %d N = %d
INVARIANTS Square Form Pivots Quot
CHECK_DEADLOCK FALSE
"""
TR = """INIT TraceInit
NEXT TraceNext
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""


def check(ctx):
    with ThreadPoolExecutor(2) as ex:
        def mcs():
            for r, c, n in [(2, 2, 2), (2, 3, 1)] if ctx.quick else [(2, 2, 5), (3, 3, 1), (2, 3, 2), (3, 2, 2), (2, 4, 1)]:
                tlc_model(ctx, "LinearMC", MC % (r, c, n), workers=4)
        mc = ex.submit(mcs)
        jobs = [("lin_s", "linear_trace.cpp", dict(san=True, opt="-O0")), ("lin_o", "linear_trace.cpp", dict(opt="-O2"))]
        if not ctx.quick:
            jobs.append(("lin_c", "linear_trace.cpp", dict(opt="-O1", cxx="clang++")))
        bins = build(ctx, jobs)
        mc.result()
    record_and_validate(ctx, bins, "LinearTrace", TR, nfiles=8 if ctx.quick else 24)


if __name__ == "__main__":
    main(sys.argv.pop(1), check)
