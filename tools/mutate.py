#!/usr/bin/env python3
"""Looks for gaps of the trace checks: changes single tokens of the headers (in scratch
copies), records the traces of the changed code and has TLC judge them.

  mutate.py PROPERTY [-n COUNT] [-s SEED] [-h HEADER]

Prints the changes that no trace shows (same) and those that the specification accepts
(accepted).  Changes that do not compile, crash or are rejected are only counted.
Not part of any check."""
import glob, hashlib, importlib, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
import vf
O = ["-O1"]
CONF = dict(
    C09=("span", ["span.hpp", "stringParam.hpp"], "span_trace.cpp", [([], a) for a in (["--part", p] for p in "1234")], "SpanTrace"),
    C10=("bytes_", ["bytes.hpp"], "bytes_trace.cpp", [([], [])], "BytesTrace"),
    C11=("utf", ["utf.hpp"], "utf_trace.cpp", [([], [])], "UtfTrace"),
    C12=("flags", ["flags.hpp"], "flags_trace.cpp", [([], [])], "FlagsTrace"),
    C13=("rect", ["rect.hpp", "rectOps.hpp", "simplex.hpp"], "rect_trace.cpp", [([], [])], "RectTrace"),
    C14=("vec", ["vec.hpp", "vec2.hpp", "vec3.hpp", "vecOps.hpp"], "vec_trace.cpp", [(["-DDIM=%d" % d, "-DGROUPS=7"], []) for d in (2, 3, 4)], "VecTrace"),
    C15=("mat", ["mat.hpp", "matOps.hpp"], "mat_trace.cpp", None, "MatTrace"),
    C16=("linear", ["matOps.hpp"], "linear_trace.cpp", [([], [])], "LinearTrace"),
    C17=("quat", ["quaternion.hpp"], "quat_trace.cpp", [([], [])], "QuaternionTrace"),
    C18=("transform", ["transform.hpp"], "transform_trace.cpp", [([], [])], "TransformTrace"),
    C19=("scalar", ["math.hpp"], "scalar_trace.cpp", [([], [])], "ScalarTrace"),
    C20=("approx", ["approx.hpp", "approxVec.hpp"], "approx_trace.cpp", [([], [])], "ApproxTrace"),
)


def mutants(path):
    """(line number, old, new) for all lines with code"""
    res, incomment = [], False
    lines = open(path).read().split("\n")
    for n, line in enumerate(lines):
        code = line.split("//")[0]
        if "/*" in code or incomment:
            incomment = "*/" not in code
            continue
        if not code.strip() or code.strip().startswith("#") or "static_assert" in code or re.match(r"\s*(using|template|namespace|public:|private:|typedef)", code):
            continue

        def sub(a, b, new):
            m = line[:a] + new + line[b:]
            if m != line:
                res.append((n, m))
        swaps = {"<": ["<=", ">"], ">": [">=", "<"], "<=": ["<", ">="], ">=": [">", "<="], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"],
                 "+": ["-"], "-": ["+"], "*": ["+", "/"], "/": ["*"], "+=": ["-=", "="], "-=": ["+=", "="], "*=": ["+=", "/="], "/=": ["*="],
                 "++": ["--"], "--": ["++"], "&": ["|"], "|": ["&"], "^": ["|"], "<<": [">>"], ">>": ["<<"], "|=": ["&="], "&=": ["|="], "^=": ["|="], "%": ["/"]}
        for m in re.finditer(r"(?<=[\s\w)\]])(<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|\|=|&=|\^=|\+\+|--|<<|>>|[-+*/<>&|^%])(?=[\s\w(\[;)])", code):
            # templates
            if m.group(1) in "<>" and not (code[m.start() - 1] == " " and code[m.end():m.end() + 1] == " "):
                continue
            if m.group(1) in ("&", "*", "&&") and not (code[m.start() - 1] == " " and code[m.end():m.end() + 1] == " "):
                continue
            for s in swaps.get(m.group(1), []):
                sub(m.start(), m.end(), s)
        for m in re.finditer(r"(?<![\w.])-(?=[\w(])", code):
            sub(m.start(), m.end(), "")
        for m in re.finditer(r"!(?=[\w(])", code):
            sub(m.start(), m.end(), "")
        for m in re.finditer(r"(?<![\w.])(\d+)(u|f|\.0|\.f|\.0f)?(?![\w.])", code):
            v = int(m.group(1)); s = m.group(2) or ""
            for w in {v + 1, v - 1} if v else {1}:
                sub(m.start(), m.end(), "%d%s" % (w, s))
        for m in re.finditer(r"\b(true|false)\b", code):
            sub(m.start(), m.end(), "false" if m.group(1) == "true" else "true")
        pairs = [("x", "y"), ("y", "z"), ("z", "x"), ("w", "x"), ("i", "j"), ("r", "c"), ("R", "C"), ("a", "b"), ("begin", "end"), ("min", "max"), ("sin", "cos"), ("left", "right"), ("top", "bot"), ("near", "far"), ("from", "to"),
                 ("first", "last"), ("position", "size"), ("n", "i"), ("k", "i"), ("D", "1"), ("size", "empty"), ("v0", "v1"), ("floor", "ceil"), ("T1", "T2"), ("OR", "OC"), ("R", "OR"), ("C", "OC"), ("double", "float"), ("T", "float"), ("P", "float"), ("std::size_t", "unsigned char")]
        for p in pairs:
            for x, y in (p, p[::-1]):
                for m in re.finditer(r"(?<![\w:])" + re.escape(x) + r"(?!\w)", code):
                    sub(m.start(), m.end(), y)
        t = code.strip()
        if t.endswith(";") and not t.startswith(("return", "auto", "const", "static", "}")) and "=" not in t.split("(")[0] or re.match(r"[\w.\[\]>-]+ [-+*/|&^]?= .*;$", t) or t in ("break;", "continue;"):
            if not re.match(r"(constexpr|[\w:<>, ]+ \w+;)", t) or t in ("break;", "continue;"):
                sub(len(line) - len(line.lstrip()), len(line), ";")
        if re.match(r"(if|else if)\(.*\) (return|throw|break|continue).*;", t):
            sub(len(line) - len(line.lstrip()), len(line), ";")
        m = re.match(r"if\((.*)\) ?\{$", t)
        if m:
            k = line.index("if(")
            sub(k, len(line), "if(false && (%s)) {" % m.group(1))
            sub(k, len(line), "if(true || (%s)) {" % m.group(1))
    return lines, sorted(set(res))


def main():
    pid = sys.argv[1]
    opt = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    count, seed = int(opt.get("-n", 100)), int(opt.get("-s", 1))
    mod, headers, harness, variants, module = CONF[pid]
    cfg = importlib.import_module(mod).TR
    if variants is None:
        variants = [(["-DSHAPES=%d" % s, "-DTYPES=%d" % t], []) for s, t in ((0, 1), (1, 1), (2, 3), (3, 2), (4, 1))]
    scratch = tempfile.mkdtemp(prefix="mutate-")
    vf.SPEC = os.path.join(HERE, "spec")

    def record(inc, out, cxx="g++"):
        os.makedirs(out, exist_ok=True)
        for i, (flags, args) in enumerate(variants):
            b = os.path.join(out, "h%d" % i)
            rc, o, e = vf.sh([cxx, "-std=c++17", "-O1", "-w", "-include", "cstdint", "-I" + inc, "-I" + vf.HARNESS, os.path.join(vf.HARNESS, harness), "-o", b] + flags, timeout=600)
            if rc:
                return "compile", e
            rc, o, e = vf.sh([b, "--out", os.path.join(out, "t%d" % i), "--files", "2", "--seed", "1", "--tier", "quick", "--alarm", "60", "--name", "x"] + args, timeout=100)
            os.unlink(b)
            if rc:
                return "crash", e
        return "ok", ""
    base = os.path.join(scratch, "base")
    r = record(vf.REPO, base)
    if r[0] != "ok":
        sys.exit("baseline: %s" % (r,))
    all_ = []
    for h in headers:
        if "-h" in opt and opt["-h"] != h:
            continue
        lines, ms = mutants(os.path.join(vf.REPO, "nytl", h))
        all_ += [(h, lines, n, m) for n, m in ms]
    random.Random(seed).shuffle(all_)
    if "-l" in opt:
        lo, hi = map(int, opt["-l"].split("-")); all_ = [m for m in all_ if lo <= m[2] + 1 <= hi]
    print("%s: %d mutants, %d of them now" % (pid, len(all_), min(count, len(all_))), flush=True)
    stat = {}

    def one(k):
        h, lines, n, new = all_[k]
        d = os.path.join(scratch, "m%d" % k)
        inc = os.path.join(d, "inc")
        shutil.copytree(os.path.join(vf.REPO, "nytl"), os.path.join(inc, "nytl"))
        open(os.path.join(inc, "nytl", h), "w").write("\n".join(lines[:n] + [new] + lines[n + 1:]))
        why, e = record(inc, os.path.join(d, "out"))
        try:
            if why != "ok":
                return k, why
            differ = [f for f in sorted(glob.glob(os.path.join(base, "*.ndjson"))) if open(f, "rb").read() != open(os.path.join(d, "out", os.path.basename(f)), "rb").read()]
            if not differ:
                return k, "same"
            for f in differ[:6]:
                work = os.path.join(d, "w"); os.makedirs(work, exist_ok=True)

                class X:
                    pass
                X.work = work
                r = vf.tlc(X, module, cfg, workers=1, heap="3g", env=dict(TRACE=os.path.join(d, "out", os.path.basename(f))), timeout=600, name="x")
                if not r["ok"]:
                    return k, "rejected"
            return k, "accepted"
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(8) as ex:
        for k, why in ex.map(one, range(min(count, len(all_)))):
            stat[why] = stat.get(why, 0) + 1
            if why in ("same", "accepted"):
                h, lines, n, new = all_[k]
                print("%-8s %s:%d\n    - %s\n    + %s" % (why, h, n + 1, lines[n].strip(), new.strip()), flush=True)
    print(stat)
    shutil.rmtree(scratch)


main()
