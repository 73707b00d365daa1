"""C14: Vec.tla, VecTrace.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

FIXED = """INIT Init
NEXT Next
CONSTANTS N = %d
INVARIANTS Trig Values Exp Root Wides
CHECK_DEADLOCK FALSE
"""
MC = """SPECIFICATION Spec
CONSTANTS D = %d N = %d U = 16
INVARIANTS Laws Unit Types
PROPERTY Step
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
"""
TR = """INIT TraceInit
NEXT TraceNext
CONSTANT U = 16
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""
RING = """INIT Init
NEXT Next
CONSTANTS N = %d Big = 1000000007
INVARIANTS Hom Coprime Laws
CHECK_DEADLOCK FALSE
"""
RTR = TR.replace("CONSTANT U = 16\n", "")


def check(ctx):
    with ThreadPoolExecutor(2) as ex:
        def mcs():
            tlc_model(ctx, "RingMC", RING % (6 if ctx.quick else 40), workers=2)
            tlc_model(ctx, "FixedMC", FIXED % (1000 if ctx.quick else 20000), workers=2)
            for d, n in [(3, 1), (2, 2)] if ctx.quick else [(3, 2), (2, 5), (1, 12), (4, 1)]:
                tlc_model(ctx, "VecMC", MC % (d, n), workers=4)
        mc = ex.submit(mcs)
        def job(kind, d, g, **kw):
            return ("vec_%s%d" % (kind, d), "vec_trace.cpp", dict(flags=["-DDIM=%d" % d, "-DGROUPS=%d" % g], **kw))
        if ctx.quick:
            jobs = [job("o", d, 1, opt="-O2") for d in (2, 3)] + [job("s", d, 1, san=True, opt="-O0") for d in (2, 3, 4)] + \
                   [job("c", 3, 1, opt="-O1", cxx="clang++")] + [job("p", d, 7, opt="-O0") for d in (2, 3, 4, 5, 1)]
        else:
            jobs = [job(*x, d, 7, **kw) for x, kw in [("s", dict(san=True, opt="-O0")), ("o", dict(opt="-O2")), ("c", dict(opt="-O1", cxx="clang++"))] for d in (1, 2, 3, 4, 5, 7)]
        rings = [("ring_%s%d" % (k, g), "ring_trace.cpp", dict(flags=["-DWHAT=0", "-DGROUP=%d" % g], **kw)) for g in (0, 1) for k, kw in
                 [("p", dict(opt="-O0"))] + ([] if ctx.quick and g else [("s", dict(san=True, opt="-O0")), ("c", dict(opt="-O1", cxx="clang++"))])]
        bins = build(ctx, jobs + rings)
        rbins = {n: bins.pop(n) for n, s, kw in rings if n in bins}
        mc.result()
    # large numbers
    record_and_validate(ctx, rbins, "RingTrace", RTR, nfiles=2 if ctx.quick else 8)
    record_and_validate(ctx, bins, "VecTrace", TR, nfiles=3)


if __name__ == "__main__":
    main(sys.argv.pop(1), check)
