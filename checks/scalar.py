"""C19: Scalar.tla, ScalarTrace.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

MC = """INIT Init
NEXT Next
CONSTANTS M = %d B = %d
INVARIANTS Numbers Mapping Pairing Onto Facts Clamps Mixes SmoothLaws
CHECK_DEADLOCK FALSE
"""
TR = """INIT TraceInit
NEXT TraceNext
CONSTANT B = 4096
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""


def check(ctx):
    with ThreadPoolExecutor(2) as ex:
        def mcs():
            for m, b in [(7, 10)] if ctx.quick else [(16, 7), (12, 2), (20, 4096)]:
                tlc_model(ctx, "ScalarMC", MC % (m, b), workers=6)
        mc = ex.submit(mcs)
        jobs = [("scalar_s", "scalar_trace.cpp", dict(san=True, opt="-O0")), ("scalar_o", "scalar_trace.cpp", dict(opt="-O2"))]
        if not ctx.quick:
            jobs.append(("scalar_c", "scalar_trace.cpp", dict(opt="-O1", cxx="clang++")))
        bins = build(ctx, jobs)
        mc.result()
    record_and_validate(ctx, bins, "ScalarTrace", TR, nfiles=8 if ctx.quick else 24)


if __name__ == "__main__":
    main(sys.argv.pop(1), check)
