"""C21: TypesMC.tla enumerates descriptions of types, the traits of the types
are recorded, TypesTrace.tla validates them"""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

MC = """INIT Init
NEXT Next
CONSTANTS Rets = {%s} Args = {%s} MaxArgs = %d UseFeatures = {%s} MaxParts = %d
INVARIANTS Emit Independent Idempotent Monotone Composed
CHECK_DEADLOCK FALSE
"""
TR = """INIT TraceInit
NEXT TraceNext
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""
RETS = ["void", "int", "const Cls&", "Only"]
ARGS = ["int", "const int", "const Cls&", "Cls&&", "int[3]", "int*", "Only", "int(int)", "const char[]"]
FEATURES = ["method", "type", "plus", "index", "call", "star"]


def q(xs):
    return ",".join('"%s"' % x for x in xs)


def param(a, i):
    """declaration of a parameter"""
    if a == "int[3]":
        return "int a%d[3]" % i
    if a == "const char[]":
        return "const char a%d[]" % i
    if a == "int(int)":
        return "int a%d(int)" % i
    return "%s a%d" % (a, i)


def js(x):
    return json.dumps(json.dumps(x))


def cpp_kind(d, n):
    """declares type K<n>"""
    ps = ", ".join(param(a, i) for i, a in enumerate(d["args"]))
    ne = " noexcept" if d["noexc"] else ""
    r, k = d["ret"], d["kind"]
    t = "K%d" % n
    if k in ("raw", "rawconst", "pointer", "reference", "member", "constmember"):
        mid = dict(raw="", rawconst="", pointer="(*)", reference="(&)", member="(Cls::*)", constmember="(Cls::*)")[k]
        return "using %s = %s%s(%s)%s%s;" % (t, r, mid, ps, " const" if k in ("rawconst", "constmember") else "", ne)
    if k in ("lambda", "mutablelambda"):
        return "auto l%d = [](%s)%s%s -> %s { std::abort(); }; using %s = decltype(l%d);" % (n, ps, " mutable" if k == "mutablelambda" else "", ne, r, t, n)
    body = "struct F%d { %s operator()(%s)%s%s; int other(char); };" % (n, r, ps, " const" if k in ("constfunctor", "constfunctorrref") else "", ne)
    if k == "derived":
        return body + " struct %s : F%d { void x() const; };" % (t, n)
    return body + " using %s = F%d%s;" % (t, n, dict(functorref="&", constfunctorrref="&&").get(k, ""))


FEAT = dict(method="void method() {}", type="using type = int;", plus="friend int operator+(const %s&, const %s&) { return 0; }", index="int operator[](int) const { return 0; }",
            call="template<typename T> typename T::type operator()(T) const { return {}; } void operator()(int) const {}", star="int operator*() const { return 0; }")


def cpp_class(d, n):
    c = "C%d" % n

    def body(name, fs):
        return "struct %s { %s };" % (name, " ".join(FEAT[f].replace("%s", name) for f in sorted(fs)))
    f, g = sorted(d["f"]), sorted(d["g"])
    s = body(c, f)
    if f == g:
        s += " using G%d = %s;" % (n, c)
    else:
        s += " " + body("G%d" % n, g)
    return s


def cpp_parts(d, n):
    bases = [x for x in d if x.startswith("Non")]
    s = ""
    members, bl = [], []
    for i, x in enumerate(d):
        if x.startswith("Non"):
            # directly, or (another part of the same kind) through a class of its own
            s += "struct B%d_%d : nytl::%s { int v {}; }; " % (n, i, x)
            if d.index(x) == i:
                bl.append("public nytl::" + x)
            else:
                members.append("B%d_%d m%d;" % (n, i, i))
        else:
            members.append("%s m%d {};" % (dict(copyable="int", movable="Only", fixed="Fixed")[x], i))
    return s + "struct P%d%s { %s };" % (n, " : " + ", ".join(bl) if bl else "", " ".join(members))


def generate(ctx, descs, nfiles):
    srcs = []
    for i in range(nfiles):
        part = descs[i::nfiles]
        p = os.path.join(ctx.work, "types%d.cpp" % i)
        with open(p, "w") as f:
            f.write('#include "types_trace.hpp"\n')
            calls = []
            for n, (stage, d) in enumerate(part):
                if stage == "kind":
                    f.write(cpp_kind(d, n) + "\n")
                    calls.append("kind<K%d>(%s);" % (n, js(d)))
                elif stage == "class":
                    f.write(cpp_class(d, n) + "\n")
                    calls.append("expressions<C%d, G%d>(%s);" % (n, n, js(d)))
                elif stage == "parts":
                    f.write(cpp_parts(d, n) + "\n")
                    calls.append("parts<P%d>(%s);" % (n, js(d)))
                elif stage == "list" and d:
                    ts = ", ".join(a for a in d)
                    calls.append("list<%s>(%s);" % (ts.replace("const char[]", "const char*"), js([a.replace("const char[]", "const char*") for a in d])))
            f.write("int main(int argc, char** argv) { init(argc, argv); %s\n" % ("others();" if i == 0 else ""))
            for k in range(0, len(calls), 200):
                f.write("[] {\n" + "\n".join(calls[k:k + 200]) + "\n}();\n")
            f.write('out.close(opt["--name"]); }\n')
        srcs.append(p)
    return srcs


def check(ctx):
    rng = random.Random(ctx.seed)
    descs = []
    r = tlc_model(ctx, "TypesMC", MC % (q(RETS), q(ARGS), 2, q(FEATURES), 3))
    descs += [(e[1], e[2]) for e in parse_emit(r["out"])]
    r = tlc_model(ctx, "TypesMC", MC % (q(RETS[1:3]), q(ARGS[2:7:2]), 4 if ctx.quick else 5, q([]), 0 if ctx.quick else 4))
    more = [(e[1], e[2]) for e in parse_emit(r["out"])]
    kinds = [x for x in descs if x[0] == "kind"]
    small = [x for x in kinds if len(x[1]["args"]) <= 1]
    big = [x for x in kinds + more if x[0] == "kind" and len(x[1]["args"]) > 1]
    rest = [x for x in descs + more if x[0] != "kind"]
    lists = [x for x in rest if x[0] == "list"]
    rest = [x for x in rest if x[0] != "list"]
    seen, use = set(), []
    for x in small + rng.sample(big, min(len(big), 2500 if ctx.quick else 12000)) + rest + rng.sample(lists, min(len(lists), 300)):
        k = json.dumps(x)
        if k not in seen:
            seen.add(k)
            use.append(x)
    rng.shuffle(use)
    nf = 8 if ctx.quick else 32
    srcs = generate(ctx, use, nf)
    jobs = [("types%d" % i, s, dict(opt="-O0")) for i, s in enumerate(srcs)]
    if not ctx.quick:
        jobs += [("typesc%d" % i, s, dict(opt="-O0", cxx="clang++")) for i, s in enumerate(srcs)]
    bins = build(ctx, jobs)
    ctx.add(descriptions=len(use))
    record_and_validate(ctx, bins, "TypesTrace", TR, nfiles=1)


if __name__ == "__main__":
    main(sys.argv.pop(1), check)
