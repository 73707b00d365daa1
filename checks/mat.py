"""C15: Mat.tla, MatTrace.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

MC = """INIT Init
NEXT Next
CONSTANTS R = %d C = %d N = %d U = 16
INVARIANTS Laws Assoc
CHECK_DEADLOCK FALSE
"""
TR = """INIT TraceInit
NEXT TraceNext
CONSTANT U = 16
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""
RING = """INIT Init
NEXT Next
CONSTANTS N = %d Big = 1000000007
INVARIANTS Hom Coprime Laws
CHECK_DEADLOCK FALSE
"""
RTR = TR.replace("CONSTANT U = 16\n", "")


def check(ctx):
    with ThreadPoolExecutor(2) as ex:
        def mcs():
            tlc_model(ctx, "RingMC", RING % (6 if ctx.quick else 40), workers=2)
            for r, c, n in [(2, 2, 1), (1, 3, 1)] if ctx.quick else [(2, 2, 1), (1, 3, 2), (3, 1, 2), (2, 3, 1), (3, 2, 1)]:
                tlc_model(ctx, "MatMC", MC % (r, c, n), workers=4 if ctx.quick else 8)
        mc = ex.submit(mcs)

        def job(kind, s, t, **kw):
            return ("mat_%s%d" % (kind, s), "mat_trace.cpp", dict(flags=["-DSHAPES=%d" % s, "-DTYPES=%d" % t], **kw))
        if ctx.quick:
            jobs = [job("s", 0, 1, san=True, opt="-O0"), job("s", 1, 1, san=True, opt="-O0"), job("o", 3, 1, opt="-O2"), job("c", 2, 1, opt="-O1", cxx="clang++")] + \
                   [job("p", s, 7, opt="-O0") for s in range(5)]
        else:
            jobs = [job(k, s, 7, **kw) for k, kw in [("s", dict(san=True, opt="-O0")), ("o", dict(opt="-O2")), ("c", dict(opt="-O1", cxx="clang++"))] for s in range(5)]
        rings = [("ring_%s%d" % (k, g), "ring_trace.cpp", dict(flags=["-DWHAT=1", "-DGROUP=%d" % g], **kw)) for g in (0, 1) for k, kw in
                 [("p", dict(opt="-O0"))] + ([] if ctx.quick and g else [("s", dict(san=True, opt="-O0")), ("c", dict(opt="-O1", cxx="clang++"))])]
        bins = build(ctx, jobs + rings)
        rbins = {n: bins.pop(n) for n, s, kw in rings if n in bins}
        mc.result()
    # large numbers
    record_and_validate(ctx, rbins, "RingTrace", RTR, nfiles=2 if ctx.quick else 8)
    record_and_validate(ctx, bins, "MatTrace", TR, nfiles=2 if ctx.quick else 6)


if __name__ == "__main__":
    main(sys.argv.pop(1), check)
