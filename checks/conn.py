"""C04 and C05: replay of Connections.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
import cb

CFG = """SPECIFICATION MCSpec
VIEW View
CONSTANTS Regs = {%s} Connectables = {1,2} Conns = {%s} Uniqs = {%s} Tracked = %s Emit = TRUE
INVARIANTS TypeOK TrackedTruth HomeAlive SingleOwner AtMostOnce
PROPERTIES StaleIsNeutral OwnershipKept ReleaseKeeps
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
"""
NAMES = ["Callback<Tracked>", "RecursiveCallback<Tracked>", "Connectable<Tracked>", "Callback<plain>",
         "RecursiveCallback<plain>", "Connectable<plain>", "class<plain>", "class<Tracked>"]
TRACKED = {0, 1, 2, 7}


def seq(n):
    return ",".join(str(i + 1) for i in range(n))


def fmt(o):
    calls, conns, uniqs, on = o

    def d(p):
        v, c = p
        return str(v) if c else "-" if v == -1 else "0" if v == 0 else "~"
    j = lambda l: ",".join(map(str, l))
    return [j(calls), j(d(p) for p in conns), j(d(p) for p in uniqs), j(on), ""]


def lts(ctx, name, r, k, u, tracked):
    res = tlc_model(ctx, "ConnectionsMC", CFG % (seq(r), seq(k), seq(u), "TRUE" if tracked else "FALSE"), name="lts-" + name)
    p = os.path.join(ctx.work, name + ".lts")
    info = write_lts(ctx, p, ((e[1], tuple(e[2]), e[3], e[4]) for e in parse_emit(res["out"])), fmt)
    ctx.add(**{"lts_%s_states" % name: info["states"], "lts_%s_edges" % name: info["edges"]})
    return p


def check(ctx):
    c05 = ctx.id == "C05"
    vs = [0, 1, 2, 3, 4, 5, 6, 7] if c05 else [0, 1, 2, 3, 4]
    jobs = [("c%d" % v, "connection_lts.cpp", dict(flags=["-DVARIANT=%d" % v], opt="-O1")) for v in vs]
    for v in vs:
        if not ctx.quick or v in (1, 5):
            jobs.append(("b%d" % v, "connection_lts.cpp", dict(flags=["-DVARIANT=%d" % v], opt="-O0", san=True)))
    jobs.sort(key=lambda j: j[0])
    with ThreadPoolExecutor(3) as ex:
        fb = ex.submit(build, ctx, jobs)
        if c05:
            sizes = (2, 2, 2) if ctx.quick else (3, 2, 3)
        else:
            sizes = (2, 3, 1) if ctx.quick else (3, 4, 1)
        t = ex.submit(lts, ctx, "tracked", *sizes, True)
        p = ex.submit(lts, ctx, "plain", *sizes, False)
        ltsT, ltsP, bins = t.result(), p.result(), fb.result()
    runs = []
    for v in vs:
        for kind in "cb":
            b = bins.get("%s%d" % (kind, v))
            if not b:
                continue
            san = kind == "b"
            nsh = 4 if san else (1 if ctx.quick else 2)
            for shard in range(1 if ctx.quick else nsh):
                q = dict(extra=4, depth=0 if san else 3, walks=300 if san else 4000, len=60) if ctx.quick else \
                    dict(extra=6, depth=3 if san else 4, walks=4000 if san else 100000, len=100)
                argv = [b, "--lts", ltsT if v in TRACKED else ltsP, "--prop", ctx.id, "--name", NAMES[v] + ("/asan" if san else ""),
                        "--seed", str(ctx.seed), "--shard", str(shard), "--nshards", str(nsh), "--nc", str(sizes[1]),
                        "--nu", str(sizes[2]), "--alarm", "120" if ctx.quick else "1500"]
                for k, x in q.items():
                    argv += ["--" + k, str(x)]
                runs.append(("%s%d-%d" % (kind, v, shard), argv))
    st = run_harness(ctx, runs, timeout=300 if ctx.quick else 1800)
    ctx.traces += sum(s["paths"] for s in st)
    ctx.add(connection_paths=sum(s["paths"] for s in st), connection_steps=sum(s["steps"] for s in st),
            connection_aborted=sum(s["aborted"] for s in st),
            connection_coverage={s["name"]: "%d of %d transitions" % (s["covered"], s["edges"]) for s in st})


def c04(ctx):
    cb.replay(ctx)
    check(ctx)


if __name__ == "__main__":
    pid = sys.argv.pop(1)
    main(pid, c04 if pid == "C04" else check)
