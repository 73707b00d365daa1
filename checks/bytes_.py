"""C10: Bytes.tla, BytesTrace.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

MC = """SPECIFICATION MCSpec
CONSTANTS N = %d Values = {1, 2} MaxObj = %d
INVARIANTS TypeOK RoundTrip Guards
CHECK_DEADLOCK FALSE
"""
TR = """INIT TraceInit
NEXT TraceNext
INVARIANT TypeOK
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""


def check(ctx):
    with ThreadPoolExecutor(2) as ex:
        mc = ex.submit(tlc_model, ctx, "BytesMC", MC % ((4, 3) if ctx.quick else (6, 4)), workers=2)
        bins = build(ctx, [("bytes_s", "bytes_trace.cpp", dict(san=True, opt="-O0")), ("bytes_o", "bytes_trace.cpp", dict(opt="-O2"))] +
                     ([] if ctx.quick else [("bytes_c", "bytes_trace.cpp", dict(opt="-O2", cxx="clang++"))]))
        mc.result()
    record_and_validate(ctx, bins, "BytesTrace", TR, nfiles=8 if ctx.quick else 16)


if __name__ == "__main__":
    main(sys.argv.pop(1), check)
