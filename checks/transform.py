"""C18: Transform.tla, TransformTrace.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

MC = """INIT Init
NEXT Next
CONSTANTS M = %d
INVARIANTS Affine Planar Depths Reduced Swapped
CHECK_DEADLOCK FALSE
"""
TR = """INIT TraceInit
NEXT TraceNext
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""


def check(ctx):
    with ThreadPoolExecutor(2) as ex:
        def mcs():
            for m in [1]:
                tlc_model(ctx, "TransformMC", MC % m, workers=6)
        mc = ex.submit(mcs)
        jobs = [("transform_s", "transform_trace.cpp", dict(san=True, opt="-O0")), ("transform_o", "transform_trace.cpp", dict(opt="-O2"))]
        if not ctx.quick:
            jobs.append(("transform_c", "transform_trace.cpp", dict(opt="-O1", cxx="clang++")))
        bins = build(ctx, jobs)
        mc.result()
    record_and_validate(ctx, bins, "TransformTrace", TR, nfiles=8 if ctx.quick else 24)


if __name__ == "__main__":
    main(sys.argv.pop(1), check)
