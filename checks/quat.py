"""C17: Quaternion.tla, QuaternionTrace.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

MC = """INIT Init
NEXT Next
CONSTANTS M = %d E = %d
INVARIANTS Algebra Rotations Directions Sequences3 Quarter
CHECK_DEADLOCK FALSE
"""
TR = """INIT TraceInit
NEXT TraceNext
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""


def check(ctx):
    with ThreadPoolExecutor(2) as ex:
        def mcs():
            for m, e in [(1, 12868)] if ctx.quick else [(2, 12868), (1, 4290)]:
                tlc_model(ctx, "QuaternionMC", MC % (m, e), workers=4)
        mc = ex.submit(mcs)
        jobs = [("quat_s", "quat_trace.cpp", dict(san=True, opt="-O0")), ("quat_o", "quat_trace.cpp", dict(opt="-O2"))]
        if not ctx.quick:
            jobs.append(("quat_c", "quat_trace.cpp", dict(opt="-O1", cxx="clang++")))
        bins = build(ctx, jobs)
        mc.result()
    record_and_validate(ctx, bins, "QuaternionTrace", TR, nfiles=8 if ctx.quick else 24)


if __name__ == "__main__":
    main(sys.argv.pop(1), check)
