"""C11: Utf.tla, UtfTrace.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

MC = """SPECIFICATION MCSpec
CONSTANTS First = 0 Last = 1114111 Stride = %d
INVARIANT Lossless
CHECK_DEADLOCK FALSE
"""
TR = """INIT TraceInit
NEXT TraceNext
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""


def check(ctx):
    with ThreadPoolExecutor(2) as ex:
        # quick: the scalar values of some residue classes around the boundaries are covered by the traces
        mc = ex.submit(tlc_model, ctx, "UtfMC", MC % (4000,), workers=3)
        bins = build(ctx, [("utf_s", "utf_trace.cpp", dict(san=True, opt="-O0")), ("utf_o", "utf_trace.cpp", dict(opt="-O2"))])
        mc.result()
    b = ["--blocks", "16" if ctx.quick else "1", "--offset", str(ctx.seed)]
    record_and_validate(ctx, {k: (v, b) for k, v in bins.items()}, "UtfTrace", TR, nfiles=8 if ctx.quick else 24)


if __name__ == "__main__":
    main(sys.argv.pop(1), check)
