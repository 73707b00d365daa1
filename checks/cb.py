"""C01, C02, C03, C04, C06: callbacks, replay of Callback.tla"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

CFG = """SPECIFICATION MCSpec
VIEW View
CONSTANTS Slots = {%s} MaxDepth = %d Reentrant = %s Emit = %s
INVARIANTS TypeOK CallsDistinct PendingOnlyBusy PendingIsRemoved PendingCovered Connected
PROPERTIES SnapshotStable SnapshotIsLive RemovedForGood OnlyTargetRemoved AnnouncedOnce ThrowNeutral FailNeutral
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
"""


def fmt(o):
    dres, inv, end, vec, sets, rems, conn = o
    j = lambda l: ",".join(map(str, l))
    return [str(dres), str(inv), end, j(vec), j(sets), j(rems), j(conn)]


def lts(ctx, name, slots, depth, reentrant):
    r = tlc_model(ctx, "CallbackMC", CFG % (",".join(str(i + 1) for i in range(slots)), depth,
                                           "TRUE" if reentrant else "FALSE", "TRUE"), name="lts-" + name)
    p = os.path.join(ctx.work, name + ".lts")
    info = write_lts(ctx, p, ((e[1], tuple(e[2]), e[3], e[4]) for e in parse_emit(r["out"])), fmt,
                     init="<<<<>>, {}, {}, <<>>, TRUE>>")
    ctx.add(**{"lts_%s_states" % name: info["states"], "lts_%s_edges" % name: info["edges"]})
    return p, info

NAMES = ["RecursiveCallback<int,ConnectionID>", "RecursiveCallback<void,TrackedConnectionID>",
         "RecursiveCallback<unique_ptr,ValueId>", "RecursiveCallback<string,SharedId>",
         "Callback<int,ConnectionID>", "Callback<void,TrackedConnectionID>", "Callback<unique_ptr,ValueId>",
         "Callback<string,SharedId>", "RecursiveCallback<bool,TrackedConnectionID>"]
VARIANTS = dict(C01=[0, 1, 2, 3, 4, 5, 6, 8], C02=[0, 1, 2, 3, 4, 5, 6, 7], C03=[2, 3, 6, 7],
                C04=[1, 3, 8, 5, 7, 0, 4], C06=[0, 1, 2, 3, 4, 5, 6, 7])

SANQUICK = dict(C01=[0, 4], C02=[1, 5], C03=[2, 6], C04=[1, 5], C06=[3, 7])


TRACE = """INIT TraceInit
NEXT TraceNext
CONSTANTS Slots <- Many Reentrant = TRUE Prop = "%s"
INVARIANTS TypeOK CallsDistinct PendingOnlyBusy PendingIsRemoved PendingCovered
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""


def histories(ctx, bins):
    """random histories with many functions and deep nesting, validated by TLC"""
    c06 = ctx.id == "C06"
    n = (4000 if c06 else 10000) if ctx.quick else 300000

    def run(failures):
        part = {k: (b, ["--records", str({"s": n // 6, "o": 150}.get(k[0], n)), "--failures", str(failures), "--old", {"s": "2", "o": "3"}.get(k[0], "1")])
                for k, b in bins.items() if k[0] != "o" or failures or not c06}
        st = record_and_validate(ctx, part, "CallbackTrace", TRACE % ctx.id, nfiles=4 if ctx.quick else 24, what="history",
                                 timeout=120 if ctx.quick else 1500)
        if st:
            ctx.add(histories=sum(s.get("histories", 0) for s in st), )
            ctx.detail.update(deepest_history=max(s.get("depth", 0) for s in st), functions_of_history=max(s.get("functions", 0) for s in st))
    if c06:
        # deviations without exceptions and failing registrations are the subject of other properties
        old = ctx.violations
        ctx.violations = []
        try:
            run(0)
        finally:
            other, ctx.violations = ctx.violations, old
        if other:
            ctx.add(histories_deviate_without_failures=len(other))
            return
    run(1 if c06 or ctx.id in ("C01", "C02", "C03") else 0)


def replay(ctx):
    pid = ctx.id
    vs = VARIANTS[pid]
    jobs = []
    for v in vs:
        jobs.append(("v%d" % v, "callback_lts.cpp", dict(flags=["-DVARIANT=%d" % v], opt="-O1")))
        if not ctx.quick or v in SANQUICK[pid]:
            jobs.append(("a%d" % v, "callback_lts.cpp", dict(flags=["-DVARIANT=%d" % v], opt="-O0", san=True)))
        jobs.append(("r%d" % v, "callback_lts.cpp", dict(flags=["-DVARIANT=%d" % v, "-DRECORD"], opt="-O0")))
    jobs += [("s%d" % v, "callback_lts.cpp", dict(flags=["-DVARIANT=%d" % v, "-DRECORD"], opt="-O0", san=True)) for v in (vs if not ctx.quick else SANQUICK[pid][:1])]
    if not ctx.quick:
        jobs += [("o%d" % v, "callback_lts.cpp", dict(flags=["-DVARIANT=%d" % v, "-DRECORD"], opt="-O2")) for v in (0, 4) if v in vs]
    jobs.sort(key=lambda j: j[0][0] not in "as") # sanitizer builds take longest
    with ThreadPoolExecutor(3) as ex:
        fb = ex.submit(build, ctx, jobs)
        if ctx.quick:
            rec = lts(ctx, "rec", 3, 2, True)
            big = None
        else:
            rec = lts(ctx, "rec", 3, 3, True)
            big = lts(ctx, "big", 4, 2, True)
        flat = lts(ctx, "flat", 4, 1, False)
        bins = fb.result()
    runs = []
    for v in vs:
        isrec = "Recursive" in NAMES[v]
        for kind in "va":
            b = bins.get("%s%d" % (kind, v))
            if not b:
                continue
            san = kind == "a"
            cfgs = [("flat", flat[0])] if not isrec else [("rec", rec[0])] + ([("big", big[0])] if big and not san else [])
            for cname, path in cfgs:
                # (quick, sanitizer: only a part of the transitions)
                nsh = 4 if san or not ctx.quick else 1
                for shard in range(1 if ctx.quick else nsh):
                    if ctx.quick:
                        p = dict(depth=0 if san else 5, depth3=0 if san else (5 if isrec else 4),
                                 extra=6, walks=300 if san else 6000, len=60)
                    else:
                        d = 8 if cname == "rec" else 7
                        p = dict(depth=5 if san else d, depth3=4 if san else d - 1, extra=10, walks=20000 if san else 200000, len=120)
                    argv = [b, "--lts", path, "--prop", ctx.id, "--name", "%s/%s%s" % (NAMES[v], cname, "/asan" if san else ""),
                            "--seed", str(ctx.seed), "--shard", str(shard), "--nshards", str(nsh), "--alarm", "120" if ctx.quick else "1500"]
                    for k, x in p.items():
                        argv += ["--" + k, str(x)]
                    runs.append(("%s%d-%s-%d" % (kind, v, cname, shard), argv))
    runs.sort(key=lambda r: "rec" not in r[0])
    st = run_harness(ctx, runs, timeout=300 if ctx.quick else 1800)
    ctx.traces += sum(s["paths"] for s in st)
    ctx.add(replayed_paths=sum(s["paths"] for s in st), replayed_steps=sum(s["steps"] for s in st),
            aborted_paths=sum(s["aborted"] for s in st),
            min_transition_coverage=round(min([s["covered"] / max(1, s["edges"]) for s in st if "asan" not in s["name"]] or [0]), 4),
            variants=[s["name"] for s in st])
    if not ctx.violations:
        histories(ctx, {k: b for k, b in bins.items() if k[0] in "rso"})


ARGCFG = """SPECIFICATION Spec
VIEW View
CONSTANTS MaxFuncs = %d Values = %d
INVARIANT TypeOK
PROPERTY ValueIntact
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
"""


def callargs(ctx):
    nf, val = (3, 2) if ctx.quick else (4, 3)
    bins = build(ctx, [("args%d" % v, "callargs_lts.cpp", dict(flags=["-DVARIANT=%d" % v], opt="-O0", san=True)) for v in range(4)])
    r = tlc_model(ctx, "CallArgs", ARGCFG % (nf, val), name="callargs")
    p = os.path.join(ctx.work, "callargs.lts")
    info = write_lts(ctx, p, ((e[1], tuple(e[2]), e[3], e[4]) for e in parse_emit(r["out"])),
                     lambda o: ["%d,%d,%d,%d" % tuple(o[:4]), "", "ended" if o[4] else ""])
    # operations without a call have nothing to see; a function that is
    # followed by another one shows the same as the other one sees
    fix_args(p)
    runs = [("args%d" % v, [b, "--lts", p, "--name", n, "--seed", str(ctx.seed), "--values", str(val), "--alarm", "120",
             "--walks", "3000" if ctx.quick else "60000"])
            for v, n in enumerate(["RecursiveCallback args void", "RecursiveCallback args int", "Callback args void", "Callback args int"])
            for b in [bins.get("args%d" % v)] if b]
    st = run_harness(ctx, runs)
    ctx.traces += sum(s["paths"] for s in st)
    ctx.add(args_edges=info["edges"], args_paths=sum(s["paths"] for s in st))


def fix_args(p):
    lines = open(p).read().split("\n")
    nops, nobs = map(int, lines[0].split()[:2])
    # rows refer to observations by index: split those used by idle operations
    rows = [list(map(int, l.split())) for l in lines[2 + nops + nobs:] if l]
    ops, obs = lines[2:2 + nops], lines[2 + nops:2 + nops + nobs]
    blank = len(obs)
    obs.append("||")
    for r in rows:
        if ops[r[1]] not in ("call", "do"):
            r[3] = blank
    head = lines[0].split()
    head[1] = str(len(obs))
    open(p, "w").write("\n".join([" ".join(head), lines[1]] + ops + obs + [" ".join(map(str, r)) for r in rows]) + "\n")


def c06(ctx):
    replay(ctx)
    callargs(ctx)


if __name__ == "__main__":
    pid = sys.argv.pop(1)
    main(pid, c06 if pid == "C06" else replay)
