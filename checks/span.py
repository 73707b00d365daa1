"""C09: Span.tla, SpanTrace.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

MC = """SPECIFICATION MCSpec
CONSTANTS Regs = {1, 2%s} N = %d Values = {1, 2}
INVARIANTS TypeOK Order
PROPERTY OneWrite
CHECK_DEADLOCK FALSE
"""
TR = """INIT TraceInit
NEXT TraceNext
CONSTANTS Regs = {1, 2, 3}
INVARIANT TypeOK
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""


def check(ctx):
    parts = "1234"
    with ThreadPoolExecutor(2) as ex:
        mc = ex.submit(tlc_model, ctx, "SpanMC", MC % ("", 3 if ctx.quick else 4), workers=2)
        # one binary serves all parts
        bins = build(ctx, [("span_s", "span_trace.cpp", dict(san=True, opt="-O0")), ("span_o", "span_trace.cpp", dict(opt="-O2"))] +
                     ([] if ctx.quick else [("span_c", "span_trace.cpp", dict(opt="-O2", cxx="clang++"))]))
        mc.result()
    record_and_validate(ctx, {b + p: (path, ["--part", p]) for b, path in bins.items() for p in parts}, "SpanTrace", TR,
                        nfiles=2 if ctx.quick else 6)


if __name__ == "__main__":
    main(sys.argv.pop(1), check)
