"""C07: replay of ScopeGuards.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

CFG = """SPECIFICATION Spec
VIEW View
CONSTANTS MaxFrames = %d MaxGuards = %d MaxHeld = %d Kinds = {"all","succ","exc"}
INVARIANTS TypeOK Promise
PROPERTIES Reverse HeldPromise
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
"""


def lts(ctx, fr, gu, he):
    name = "scope-%d-%d-%d" % (fr, gu, he)
    r = tlc_model(ctx, "ScopeGuards", CFG % (fr, gu, he), name=name)
    p = os.path.join(ctx.work, name + ".lts")

    def fmt(o):
        return ["" if o[0] == 0 else "%d,%d" % (o[0], o[1]), str(o[2])]
    info = write_lts(ctx, p, ((e[1], tuple(e[2]), e[3], e[4]) for e in parse_emit(r["out"])), fmt, init="<<<<>>, <<>>>>")
    return name, p, info


def check(ctx):
    sizes = [(3, 2, 0), (5, 1, 0), (3, 1, 1)] if ctx.quick else [(3, 2, 0), (6, 1, 0), (4, 1, 1), (2, 1, 2)]
    with ThreadPoolExecutor(3) as ex:
        fb = ex.submit(build, ctx, [("scope", "scope_lts.cpp", {}), ("scopea", "scope_lts.cpp", dict(san=True, opt="-O0")),
                                    ("scope2", "scope_lts.cpp", dict(opt="-O2", cxx="clang++"))])
        ls = list(ex.map(lambda s: lts(ctx, *s), sizes))
        bins = fb.result()
    runs = []
    for name, p, info in ls:
        for b, path in bins.items():
            san = b == "scopea"
            nsh = (8 if san else 2) if ctx.quick else 4
            for shard in range(1 if san and ctx.quick else nsh):
                q = dict(extra=5, depth=0 if san else 7, walks=300 if san else 10000, len=60) if ctx.quick else \
                    dict(extra=8, depth=6 if san else 9, walks=5000 if san else 300000, len=120)
                argv = [path, "--lts", p, "--name", "%s/%s" % (name, b), "--seed", str(ctx.seed), "--shard", str(shard),
                        "--nshards", str(nsh), "--alarm", "120" if ctx.quick else "1500"]
                for k, x in q.items():
                    argv += ["--" + k, str(x)]
                runs.append(("%s-%s-%d" % (name, b, shard), argv))
    st = run_harness(ctx, runs, timeout=300 if ctx.quick else 1800)
    ctx.traces += sum(s["paths"] for s in st)
    ctx.add(replayed_paths=sum(s["paths"] for s in st), replayed_steps=sum(s["steps"] for s in st),
            coverage={s["name"]: "%d of %d transitions" % (s["covered"], s["edges"]) for s in st},
            lts={n: i["edges"] for n, p, i in ls})


if __name__ == "__main__":
    main(sys.argv.pop(1), check)
