"""Framework of the checks: building harnesses from /repo's working tree, running
TLC, replaying its behaviours, validating recorded traces, writing evidence."""
import json, os, re, shutil, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = min(8, os.cpu_count() or 4)

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all"]
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "abort_on_error=1:handle_abort=0:handle_segv=0:handle_sigfpe=0:detect_leaks=0:allocator_may_return_null=1"
ENV["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=1"


class Error(Exception):
    """the machinery (not the code under test) failed"""


class Ctx:
    def __init__(self, pid, tier):
        self.id, self.tier = pid, tier
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.work = os.path.join(os.environ.get("VERIF_WORK") or os.path.join(VERIF, ".work"), pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.detail = [], [], {}
        self.assumptions = []
        self.known = load_known(pid)
        self.knownhits = []
        self.exhaustive = None

    # -- violations
    def violation(self, what, key=None):
        """what: dict describing the failing input/history/trace; key: identity
        compared with the known findings"""
        if key is not None and key in self.known:
            if key not in self.knownhits:
                self.knownhits.append(key)
            return
        self.violations.append(what)

    def add(self, **kw):
        for k, v in kw.items():
            self.detail[k] = self.detail.get(k, 0) + v if isinstance(v, (int, float)) and not isinstance(v, bool) else v

    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples[:12])
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        cov.update(self.detail)
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.knownhits:
            print("KNOWN-FINDING: property=%s %s" % (self.id, self.known[k]))
        if self.violations:
            rp = os.path.join(self.work, "violation.json")
            with open(rp, "w") as f:
                json.dump(dict(property=self.id, seed=self.seed, tier=self.tier, violations=self.violations[:20]), f, indent=1)
            for v in self.violations[:5]:
                print("  " + json.dumps(v)[:1500])
            print("VIOLATION property=%s replay=%s" % (self.id, rp))
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" %
              (self.id, self.states, self.transitions, self.traces, time.time() - self.t0))
        return 0


def load_known(pid):
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res


# ---------------------------------------------------------------- building

def sh(cmd, timeout=None, env=None, cwd=None, inp=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           env=env or ENV, cwd=cwd, input=inp)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode("utf-8", "replace"), (e.stderr or b"").decode("utf-8", "replace")


def compile_cmd(src, out, flags=(), san=False, opt="-O1", std="c++17", cxx="g++"):
    return [cxx, "-std=" + std, opt, "-w", "-include", "cstdint", "-I" + os.path.join(REPO), "-I" + HARNESS,
            src, "-o", out] + (SAN if san else []) + list(flags)


def build(ctx, jobs):
    """jobs: list of (name, source, kwargs).  Builds in parallel, returns {name: binary}
    (missing where the code under test does not compile: a violation)."""
    res = {}

    def one(job):
        name, src, kw = job
        if not os.path.isabs(src):
            src = os.path.join(HARNESS, src)
        out = os.path.join(ctx.work, name)
        rc, o, e = sh(compile_cmd(src, out, **kw), timeout=600)
        return name, out, rc, e
    with ThreadPoolExecutor(CPUS) as ex:
        results = list(ex.map(one, jobs))
    bad = [r for r in results if r[2] != 0]
    for name, out, rc, e in results:
        if rc == 0:
            res[name] = out
    if bad:
        # is the toolchain alright?
        t = os.path.join(ctx.work, "sanity.cpp")
        open(t, "w").write("#include <vector>\n#include <functional>\nint main(){return 0;}\n")
        rc, o, e = sh(compile_cmd(t, os.path.join(ctx.work, "sanity")), timeout=300)
        if rc != 0:
            raise Error("compiler does not work: " + e[-2000:])
        for name, out, rc, e in bad:
            if rc in (-9, 137) or "Killed" in e:
                raise Error("compiler killed: " + e[-2000:])
            errs = [l for l in e.splitlines() if "error" in l][:6]
            ctx.violation(dict(kind="does not compile", harness=name, errors=errs or e[-1500:]))
    return res


# ---------------------------------------------------------------- TLC

_tlcn = [0]


def tlc(ctx, module, cfg, workers=CPUS, heap="6g", timeout=800, env=None, args=(), name=None, cwd=SPEC, props=()):
    """Runs TLC on spec/<module>.tla; returns dict with output and statistics."""
    _tlcn[0] += 1
    name = name or "%s-%d" % (module, _tlcn[0])
    cfgp = os.path.join(ctx.work, name + ".cfg")
    open(cfgp, "w").write(cfg)
    meta = os.path.join(ctx.work, name + ".meta")
    e = dict(ENV)
    if env:
        e.update(env)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + ctx.work] + list(props) + \
        ["-cp", TLAJARS, "tlc2.TLC", "-nowarning", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfgp] + \
        list(args) + [module + ".tla"]
    rc, o, err = sh(cmd, timeout=timeout, env=e, cwd=cwd)
    shutil.rmtree(meta, ignore_errors=True)
    r = dict(rc=rc, out=o, err=err, name=name, ok=rc == 0)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", o.replace(",", "") if False else o)
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", o)
    r["generated"] = int(m[-1][0].replace(",", "")) if m else 0
    r["distinct"] = int(m[-1][1].replace(",", "")) if m else 0
    m = re.search(r"depth of the complete state graph search is (\d+)", o)
    r["depth"] = int(m.group(1)) if m else 0
    return r


def tlc_model(ctx, module, cfg, **kw):
    """A model checking run that has to succeed (independent of the code)."""
    r = tlc(ctx, module, cfg, **kw)
    if not r["ok"]:
        r = tlc(ctx, module, cfg, **kw)
    if not r["ok"]:
        raise Error("TLC on %s failed:\n%s\n%s" % (module, "\n".join(l for l in r["out"].splitlines() if not l.startswith('"'))[-3000:], r["err"][-1000:]))
    ctx.states += r["distinct"]
    ctx.transitions += r["generated"]
    return r


def parse_emit(out):
    """JSON values printed with PrintT(ToJson(..))"""
    for line in out.splitlines():
        if line.startswith('"'):
            try:
                yield json.loads(json.loads(line))
            except ValueError:
                raise Error("cannot parse TLC output line: " + line[:300])


def write_lts(ctx, path, edges, fmt, init=None, inits=None):
    """edges: (from, (op,arg), obs, to); fmt(obs) -> list of field strings"""
    states, ops, obss, rows = {}, {}, {}, []
    seen = set()
    edges = list(edges)
    if inits is None:
        inits = [init if init is not None else edges[0][0]]
    for i in inits:
        states.setdefault(i, len(states))
    for f, (op, arg), obs, t in edges:
        k = (states.setdefault(f, len(states)), ops.setdefault(op, len(ops)), arg,
             obss.setdefault("|".join(fmt(obs)), len(obss)), states.setdefault(t, len(states)))
        if k not in seen:
            seen.add(k)
            rows.append(k)
    rows.sort(key=lambda k: (k[0], k[1], k[2]))
    # every state can be reached (else the states were not printed uniquely)
    out = {}
    for k in rows:
        out.setdefault(k[0], []).append(k[4])
    todo = [states[i] for i in inits]
    reach = set(todo)
    for s in todo:
        for u in out.get(s, ()):
            if u not in reach:
                reach.add(u)
                todo.append(u)
    if len(reach) != len(states):
        raise Error("%s: %d of %d states can be reached" % (path, len(reach), len(states)))
    with open(path, "w") as fo:
        fo.write("%d %d %d %d %d\n" % (len(ops), len(obss), len(states), len(rows), len(inits)))
        fo.write(" ".join(str(states[i]) for i in inits) + "\n")
        for o in ops:
            fo.write(o + "\n")
        for o in obss:
            fo.write(o + "\n")
        for r in rows:
            fo.write("%d %d %d %d %d\n" % r)
    return dict(states=len(states), edges=len(rows), inits=inits)


# ---------------------------------------------------------------- harness runs

def run_harness(ctx, jobs, timeout=300):
    """jobs: list of (name, argv).  Parses the lines V (violation), S (statistics),
    X (sample).  Crashes and hangs are violations if they repeat."""
    stats = []
    hung = []       # one job that uses up its time is enough

    def one(job):
        name, argv = job[0], job[1]
        if hung:
            return name, argv, 0, "", ""
        t0 = time.time()
        rc, o, e = sh(argv, timeout=timeout, cwd=ctx.work)
        slow = time.time() - t0 > 60
        if rc != 0 or "\nV " in "\n" + o:
            rc2, o2, e2 = sh(argv, timeout=timeout, cwd=ctx.work)
            if (rc2 != 0) != (rc != 0) or ("\nV " in "\n" + o2) != ("\nV " in "\n" + o):
                rc, o, e = sh(argv, timeout=timeout, cwd=ctx.work)
            if slow and (rc != 0 or "\nV " in "\n" + o):
                hung.append(name)
        return name, argv, rc, o, e
    with ThreadPoolExecutor(CPUS) as ex:
        for name, argv, rc, o, e in ex.map(one, jobs):
            nv = 0
            for line in o.splitlines():
                if line.startswith("V "):
                    nv += 1
                    try:
                        v = json.loads(line[2:])
                    except ValueError:
                        v = dict(raw=line[2:])
                    v["harness"] = name
                    v["cmd"] = " ".join(argv)
                    if e.strip():
                        v["stderr"] = e.strip()[-1500:] if v.get("observed") == "crash" else ""
                    ctx.violation(v, v.get("key"))
                elif line.startswith("S "):
                    stats.append(json.loads(line[2:]))
                elif line.startswith("X "):
                    if len(ctx.samples) < 12:
                        ctx.samples.append(line[2:])
            if rc == 3:
                raise Error("harness %s failed: %s" % (name, e[-1000:]))
            if rc != 0 and nv == 0:
                kind = "hangs" if rc == -999 else "crashes (exit %d)" % rc
                ctx.violation(dict(kind=kind, harness=name, cmd=" ".join(argv), stderr=e[-2000:], stdout=o[-500:]))
    return stats


# ---------------------------------------------------------------- trace validation

def validate_traces(ctx, module, cfg, files, heap="3g", timeout=800, what="execution", extra_env=None):
    """Every file is a ndjson trace; TLC has to accept each one completely
    (POSTCONDITION in the cfg).  A rejection is reported if it repeats."""
    def one(f):
        env = dict(TRACE=f)
        if extra_env:
            env.update(extra_env)
        for attempt in range(2):
            r = tlc(ctx, module, cfg, workers=1, heap=heap, env=env, timeout=timeout,
                    name=os.path.basename(f) + "-%d" % attempt)
            if r["ok"]:
                break
        return f, r
    n = 0
    with ThreadPoolExecutor(CPUS) as ex:
        for f, r in ex.map(one, files):
            ctx.states += r["distinct"]
            ctx.transitions += r["generated"]
            lines = None
            if r["ok"]:
                n += 1
                continue
            m = re.search(r"TRACE-REJECTED at (\d+)", r["out"])
            why = "rejected by the specification"
            if not m and re.search(r"(Attempted|Overflow|overflow|evaluating|no value|not in the domain|out of bounds)", r["out"]):
                # the record has a shape that no record of the specification has
                ms = re.findall(r"(?:/\\ )?\bl = (\d+)", r["out"])
                if ms:
                    m = re.match(r"(\d+)", ms[-1])
                    why = "not a step of the specification: " + " ".join(x for x in r["out"].splitlines() if "ttempted" in x or "verflow" in x)[:300]
            if not m:
                raise Error("TLC on trace %s failed:\n%s\n%s" % (f, r["out"][-3000:], r["err"][-800:]))
            k = int(m.group(1))
            lines = open(f).read().splitlines()
            keep = os.path.join(ctx.work, os.path.basename(f) + ".rejected")
            shutil.copy(f, keep)
            rec = lines[k - 1] if 0 < k <= len(lines) else ""
            ctx.violation(dict(kind="%s %s" % (what, why), trace=keep, line=k,
                               record=rec[:1200], before=lines[max(0, k - 4):k - 1] if len(rec) < 400 else []))
    ctx.traces += n
    return n


def record_and_validate(ctx, variants, module, cfg, args=(), nfiles=CPUS, timeout=None, heap="3g", tlc_timeout=800, what="execution"):
    """variants: {name: binary}; every binary records its executions into nfiles
    traces; TLC validates them (equal traces of different builds only once)."""
    timeout = timeout or (150 if ctx.quick else 600)
    runs = []
    for name, path in variants.items():
        more = []
        if not isinstance(path, str):
            path, more = path
        runs.append((name, [path, "--out", os.path.join(ctx.work, name), "--files", str(nfiles), "--seed", str(ctx.seed),
                            "--tier", ctx.tier, "--alarm", str(timeout), "--name", name] + list(args) + list(more)))
    nv = len(ctx.violations)
    st = run_harness(ctx, runs, timeout=2 * timeout)
    files, seen, same = [], {}, 0
    for name in variants:
        for i in range(nfiles):
            f = os.path.join(ctx.work, "%s.%d.ndjson" % (name, i))
            if not os.path.exists(f):
                continue
            data = open(f, "rb").read()
            if not data.endswith(b"\n"):      # killed while writing
                data = data[:data.rfind(b"\n") + 1]
                open(f, "wb").write(data)
            if not data:
                continue
            h = hashlib.sha1(data).hexdigest()
            if h in seen:
                same += 1
                continue
            seen[h] = f
            files.append(f)
            if len(ctx.samples) < 4:
                k = data[:200000].splitlines()
                ctx.samples.append(k[len(k) // 2].decode()[:600])
    if not files and not ctx.violations:
        raise Error("nothing recorded")
    n = validate_traces(ctx, module, cfg, files, heap=heap, timeout=tlc_timeout, what=what)
    ctx.add(recorded={s["name"]: s["records"] for s in st}, trace_files=len(files), identical_trace_files=same)
    for f in files:
        if len(ctx.violations) == nv:
            os.unlink(f)
    return st


def main(pid, fn):
    tier = sys.argv[1] if len(sys.argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    ctx = Ctx(pid, tier)
    try:
        fn(ctx)
    except Error as e:
        if ctx.violations:
            sys.exit(ctx.finish())
        print("ERROR: " + str(e))
        sys.exit(2)
    sys.exit(ctx.finish())
