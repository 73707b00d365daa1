"""C08: replay of Clone.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

CFG = """SPECIFICATION Spec
VIEW View
CONSTANTS Slots = {%s} Values = {%s} UseTypes = {%s}
INVARIANT TypeOK
PROPERTY IsClone
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
"""
ALL = ["T1", "T2", "T3", "M", "M2", "M3", "M4", "D", "K", "K2", "N2", "MM"]


def lts(ctx, name, slots, values, types):
    r = tlc_model(ctx, "Clone", CFG % (",".join(map(str, range(1, slots + 1))), ",".join(map(str, range(1, values + 1))),
                                      ",".join('"%s"' % t for t in types)), name=name)
    p = os.path.join(ctx.work, name + ".lts")

    def fmt(o):
        return ["copied" if o[0] else "", ",".join(o[1]), ",".join(map(str, o[2])), str(o[3]), ""]
    info = write_lts(ctx, p, ((e[1], tuple(e[2]), e[3], e[4]) for e in parse_emit(r["out"])), fmt)
    return name, p, slots, info


def check(ctx):
    cfgs = [("all2", 2, 2, ALL)]
    if not ctx.quick:
        cfgs += [("all3", 3, 1, ALL), ("multi", 3, 2, ["M", "M2", "M4", "D", "T3"])]
    with ThreadPoolExecutor(3) as ex:
        fb = ex.submit(build, ctx, [("clone", "clone_lts.cpp", {}), ("clonea", "clone_lts.cpp", dict(san=True, opt="-O0")),
                                    ("clone2", "clone_lts.cpp", dict(opt="-O2", cxx="clang++"))])
        ls = list(ex.map(lambda c: lts(ctx, *c), cfgs))
        bins = fb.result()
    runs = []
    for name, p, slots, info in ls:
        for b, path in bins.items():
            nsh = 1 if ctx.quick else 2
            for shard in range(nsh):
                q = dict(extra=5, walks=2000 if b == "clonea" else 10000, len=60) if ctx.quick else \
                    dict(extra=8, walks=30000 if b == "clonea" else 300000, len=150)
                argv = [path, "--lts", p, "--name", "%s/%s" % (name, b), "--seed", str(ctx.seed), "--shard", str(shard),
                        "--nshards", str(nsh), "--slots", str(slots), "--alarm", "120" if ctx.quick else "1500"]
                for k, x in q.items():
                    argv += ["--" + k, str(x)]
                runs.append(("%s-%s-%d" % (name, b, shard), argv))
    st = run_harness(ctx, runs, timeout=300 if ctx.quick else 1800)
    ctx.traces += sum(s["paths"] for s in st)
    ctx.add(replayed_paths=sum(s["paths"] for s in st), replayed_steps=sum(s["steps"] for s in st),
            coverage={s["name"]: "%d of %d transitions" % (s["covered"], s["edges"]) for s in st},
            lts={n: i["edges"] for n, p, s, i in ls})


if __name__ == "__main__":
    main(sys.argv.pop(1), check)
