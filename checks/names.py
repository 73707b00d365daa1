"""C22: Names.tla, NamesMC.tla enumerates translation units, NamesTrace.tla validates
what the compiler says about them and about the named types"""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

MC = """INIT Init
NEXT Next
CONSTANTS MaxIncludes = %d MaxTypes = %d
INVARIANTS Emit Order Deduction
CHECK_DEADLOCK FALSE
"""
TR = """INIT TraceInit
NEXT TraceNext
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""
# what is done with a header alone: (declarations, expression)
PROBES = {
    "approx": ("", "1.0 == nytl::approx(1.0) && 1.0 != nytl::approx(2.0)"),
    "approxVec": ("", "nytl::Vec4d {1., 2., 3., 4.} == nytl::approx(nytl::Vec4d {1., 2., 3., 4.})"),
    "bytes": ("", "nytl::bytes(n).size() == sizeof(int)"),
    "callback": ("int called(int x) { nytl::Callback<int(int)> c; c += [](int y) { return y + 1; }; return c.call(x)[0]; }", "called(4) == 5"),
    "clone": ("struct Cl : nytl::Cloneable<Cl> { int v {3}; };", "nytl::clone(Cl {})->v == 3"),
    "connection": ("struct Con : nytl::Connectable { bool disconnect(const nytl::ConnectionID& i) override { return i.get() == 3; } };\n"
                   "bool con() { Con c; nytl::UniqueConnection u {c, {3}}; nytl::TrackedConnection t; return u.connected() && !t.connected(); }", "con()"),
    "flags": ("enum class Fl { a = 1, b = 2 };\nNYTL_FLAG_OPS(Fl)", "(Fl::a | Fl::b).value() == 3"),
    "functionTraits": ("", "nytl::FunctionTraits<int(float)>::NumArgs == 1 && nytl::isCallable<void()>"),
    "fwd": ("extern nytl::Connection* fc; extern nytl::TrackedUniqueConnection* fu;", "common(fc = nullptr, fu = nullptr)"),
    "fwd/flags": ("enum class Ff { a = 1 };\nusing FF = nytl::Flags<Ff>;", "common((FF*) nullptr)"),
    "fwd/mat": ("", "common((nytl::Mat3d*) nullptr, (nytl::Mat24<int>*) nullptr)"),
    "fwd/rect": ("", "common((nytl::Rect2f*) nullptr, (nytl::Rect4ui*) nullptr)"),
    "fwd/simplex": ("", "common((nytl::Triangle<2>*) nullptr, (nytl::Line<3, int>*) nullptr)"),
    "fwd/span": ("", "common((nytl::span<int>*) nullptr, (nytl::Span<char, 4>*) nullptr) && nytl::dynamic_extent == (std::size_t) -1"),
    "fwd/vec": ("", "common((nytl::Vec3ui*) nullptr, (nytl::Vec4u8*) nullptr)"),
    "mat": ("", "(nytl::Mat2i {1, 2, 3, 4} * nytl::Vec2i {1, 1})[1] == 7"),
    "matOps": ("", "nytl::determinant(nytl::Mat2d {2.0, 0.0, 0.0, 3.0}) > 5.9"),
    "math": ("", "nytl::degrees(0.0) == 0.0 && nytl::factorial(3) == 6"),
    "nonCopyable": ("struct Nc : nytl::NonCopyable {}; struct Nm : nytl::NonMovable {};", "sizeof(Nc) == 1 && sizeof(Nm) == 1"),
    "quaternion": ("", "nytl::norm(nytl::Quaternion {}) == 1.0"),
    "rect": ("", "nytl::Rect2i {{1, 2}, {3, 4}}.size.y == 4"),
    "rectOps": ("", "nytl::size(nytl::Rect2i {{1, 2}, {3, 4}}) == 12"),
    "recursiveCallback": ("int rcalled(int x) { nytl::RecursiveCallback<int(int)> c; c += [](int y) { return y + 2; }; return c.call(x)[0]; }", "rcalled(4) == 6"),
    "scope": ("int scoped() { int x = 1; { nytl::ScopeGuard g {[&]() noexcept { x = 2; }}; nytl::SuccessGuard h {[&]() noexcept { x *= 4; }}; } return x; }", "scoped() == 2"),
    "simplex": ("", "nytl::Triangle<2> {}.points_.size() == 3"),
    "span": ("int spanned() { int v[] = {1, 2, 3}; return nytl::span<int> {v}.last(1)[0]; }", "spanned() == 3"),
    "stringParam": ("", "nytl::StringParam {\"abc\"}.size() == 3"),
    "tmpUtil": ("", "nytl::templatize<int>(n) == n"),
    "transform": ("", "nytl::identity<4, float>()[1][1] == 1.f && nytl::translateMat(nytl::Vec3f {1.f, 2.f, 3.f})[0][3] == 1.f"),
    "utf": ("", "nytl::charCount(\"abc\") == 3 && nytl::toUtf16(\"a\").size() == 1"),
    "vec": ("", "nytl::Vec4i {1, 2, 3, 4} + nytl::Vec4i {1, 1, 1, 1} == nytl::Vec {2, 3, 4, 5}"),
    "vec2": ("", "nytl::Vec<2, int> {1, 2}.y == 2"),
    "vec3": ("", "nytl::Vec<3, int> {1, 2, 3}.z == 3"),
    "vecOps": ("", "nytl::dot(nytl::Vec2i {1, 2}, nytl::Vec2i {3, 4}) == 11"),
}
# the declared types are the defined ones: definitions of functions that units with the forward headers declare
COMMON = """
#include <nytl/vec.hpp>
#include <nytl/mat.hpp>
#include <nytl/rect.hpp>
#include <nytl/simplex.hpp>
#include <nytl/span.hpp>
#include <nytl/connection.hpp>
namespace names {
bool viaVec(const nytl::Vec<3, unsigned int>*, const nytl::Vec<4, unsigned char>*) { return true; }
bool viaMat(const nytl::Mat<3, 3, double>*, const nytl::Mat<2, 4, int>*) { return true; }
bool viaRect(const nytl::Rect<2, float>*, const nytl::Rect<4, unsigned int>*) { return true; }
bool viaSimplex(const nytl::Simplex<2, double, 2>*, const nytl::Simplex<3, int, 1>*) { return true; }
bool viaSpan(const nytl::span<int, (std::size_t) -1>*, const nytl::span<char, 4>*) { return true; }
bool viaConnection(const nytl::ConnectionT<nytl::ConnectableT<nytl::ConnectionID>, nytl::ConnectionID>*, const nytl::UniqueConnectionT<nytl::ConnectableT<nytl::TrackedConnectionID>, nytl::TrackedConnectionID>*) { return true; }
}
"""
VIA = {"fwd/vec": "bool viaVec(const nytl::Vec3ui*, const nytl::Vec4u8*);", "fwd/mat": "bool viaMat(const nytl::Mat3d*, const nytl::Mat24<int>*);",
       "fwd/rect": "bool viaRect(const nytl::Rect2f*, const nytl::Rect4ui*);", "fwd/simplex": "bool viaSimplex(const nytl::Triangle<2>*, const nytl::Line<3, int>*);",
       "fwd/span": "bool viaSpan(const nytl::span<int>*, const nytl::Span<char, 4>*);", "fwd": "bool viaConnection(const nytl::Connection*, const nytl::TrackedUniqueConnection*);"}


def unit_source(headers, n):
    s = "".join("#include <nytl/%s.hpp>\n" % h for h in headers)
    use = sorted(set(headers))
    for h in use:
        if h in VIA:
            s += "namespace names { %s }\n" % VIA[h]
    s += "namespace {\n"
    names = {}
    for i, h in enumerate(use):
        decl, expr = PROBES[h]
        if h in VIA:
            decl, expr = "", "names::%s(nullptr, nullptr)" % VIA[h].split("(")[0].split()[-1]
            if h == "fwd/span":
                expr += " && nytl::dynamic_extent == (std::size_t) -1"
        elif h == "fwd/flags":
            expr = "(FF*) nullptr == nullptr"
        s += "%s\nbool probe%d(int n) { return %s; }\n" % (decl, i, expr)
    s += "}\nunsigned long long unit%d(int n) { return 0ull%s; }\n" % (n, "".join(" | (probe%d(n) ? 1ull << %d : 0ull)" % (i, i) for i in range(len(use))))
    return s, use


def program(ctx, name, units, cxx):
    """compiles the units, links and runs what was compiled"""
    d = os.path.join(ctx.work, name)
    os.makedirs(d)

    def one(j):
        n, src = j
        p = os.path.join(d, "u%s.cpp" % n)
        with open(p, "w") as f:
            f.write(src)
        # nothing but the header is included: no -include here
        rc, o, e = sh([cxx, "-std=c++17", "-O0", "-w", "-c", "-I" + REPO, p, "-o", p[:-3] + "o"], timeout=600)
        return n, rc, e
    uses, jobs = [], []
    for n, u in enumerate(units):
        s, use = unit_source(u, n)
        uses.append(use)
        jobs.append((n, s))
    with ThreadPoolExecutor(CPUS) as ex:
        res = list(ex.map(one, jobs + [("common", COMMON)]))
    compiled = [rc == 0 for n, rc, e in res[:-1]]
    if not all(rc == 0 for n, rc, e in res):
        t = os.path.join(d, "sanity.cpp")
        with open(t, "w") as f:
            f.write("#include <vector>\n#include <functional>\nint main(){return 0;}\n")
        rc, o, e = sh([cxx, "-std=c++17", t, "-o", t[:-4]], timeout=300)
        if rc != 0 or any(r[1] in (-9, 137, -999) or "Killed" in r[2] for r in res):
            raise Error("compiler does not work: " + e[-1000:])
    errors = {str(units[n]) if n != "common" else n: [l for l in e.splitlines() if "error" in l][:3] for n, rc, e in res if rc != 0}
    ok = [n for n in range(len(units)) if compiled[n]]
    main = os.path.join(d, "main.cpp")
    with open(main, "w") as f:
        f.write("#include <cstdio>\n" + "".join("unsigned long long unit%d(int);\n" % n for n in ok) +
                "int main() {\n" + "".join('std::printf("%d %%llu\\n", unit%d(7));\n' % (n, n) for n in ok) + "}\n")
    exe = os.path.join(d, "program")
    rc, o, e = sh([cxx, "-std=c++17", "-w", main] + [os.path.join(d, "u%d.o" % n) for n in ok] + [os.path.join(d, "ucommon.o")] + ["-o", exe], timeout=600)
    linked = rc == 0
    usable = [[] for u in units]
    if linked:
        rc, o, e = sh([exe], timeout=120)
        linked = rc == 0
        for l in o.splitlines():
            n, mask = map(int, l.split())
            usable[n] = [h for i, h in enumerate(uses[n]) if mask >> i & 1]
    if not linked:
        errors["program"] = [l for l in e.splitlines() if "multiple definition" in l or "undefined" in l or "error" in l][:6]
    recs = [dict(op="unit", compiler=cxx, unit=u, compiled=c, usable=x, errors=errors.get(str(u), [])) for u, c, x in zip(units, compiled, usable)]
    return recs + [dict(op="program", units=len(units), linked=linked, errors=errors.get("program", []) + errors.get("common", []))]


def check(ctx):
    rng = random.Random(ctx.seed)
    r = tlc_model(ctx, "NamesMC", MC % (2, 3 if ctx.quick else 4))
    emitted = sorted(parse_emit(r["out"]))
    singles = [u for u in emitted if len(u) == 1]
    pairs = [u for u in emitted if len(u) == 2]
    heads = [u[0] for u in singles]
    for h in heads:
        if h not in PROBES:
            raise Error("no use of " + h)

    def mixed():
        u = heads + heads
        rng.shuffle(u)
        return u
    related = [u for u in pairs if "fwd" in (u[0], u[1]) or u[0] == "fwd/" + u[1] or u[1] == "fwd/" + u[0] or u[0] == u[1] and u[0].startswith("fwd")]
    rest = [u for u in pairs if u not in related]
    few = rng.sample(related, 30) + rng.sample(rest, 30)
    progs = [("g++", singles + few + [mixed() for i in range(2)]), ("clang++", singles + [mixed() for i in range(2)])]
    if not ctx.quick:
        rng.shuffle(pairs)
        progs = [(c, singles + part + [mixed() for i in range(4)]) for c in ("g++", "clang++") for part in (pairs[0::4], pairs[1::4], pairs[2::4], pairs[3::4])]
    bins = build(ctx, [("names", "names_trace.cpp", dict(opt="-O0"))] + ([] if ctx.quick else [("namesc", "names_trace.cpp", dict(opt="-O0", cxx="clang++"))]))
    files = []
    for i, (cxx, units) in enumerate(progs):
        recs = program(ctx, "program%d" % i, units, cxx)
        f = os.path.join(ctx.work, "include%d.ndjson" % i)
        with open(f, "w") as fo:
            for rec in recs:
                fo.write(json.dumps(rec) + "\n")
        files.append(f)
        ctx.add(units=len(units))
    validate_traces(ctx, "NamesTrace", TR, files, what="program")
    record_and_validate(ctx, bins, "NamesTrace", TR, nfiles=4)


if __name__ == "__main__":
    main(sys.argv.pop(1), check)
