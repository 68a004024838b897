"""Shared machinery of the checks: building drivers from /repo's working tree, running TLC, validating traces."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=shift-base", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
VARIANTS = {
    # asserts on, sanitizers on: what a debug build does
    "san17": ["g++", "-std=c++17", "-O1", "-g1", "-DNAZARA_DEBUG"] + SAN,
    "san20": ["g++", "-std=c++20", "-O1", "-g1", "-DNAZARA_DEBUG"] + SAN,
    # asserts off, optimised: what a release build does
    "rel17": ["g++", "-std=c++17", "-O2", "-DNDEBUG"],
    "rel20": ["g++", "-std=c++20", "-O2", "-DNDEBUG"],
    "clang20": ["clang++", "-std=c++20", "-O1", "-g1", "-DNAZARA_DEBUG", "-fsanitize=address,undefined",
                "-fno-sanitize=shift-base", "-fno-sanitize-recover=all"],
    "clang17": ["clang++", "-std=c++17", "-O2", "-DNDEBUG"],
    # several threads at once, accesses watched
    "tsan20": ["g++", "-std=c++20", "-O0", "-g1", "-DNAZARA_DEBUG", "-DNZV_THREADED", "-fsanitize=thread"],
    "tsan17": ["clang++", "-std=c++17", "-O1", "-g1", "-DNDEBUG", "-DNZV_THREADED", "-fsanitize=thread"],
    "rel23": ["g++", "-std=c++23", "-O2", "-DNDEBUG"],
    "clang23": ["clang++", "-std=c++23", "-O1", "-g1", "-DNAZARA_DEBUG", "-fsanitize=address,undefined",
                "-fno-sanitize=shift-base", "-fno-sanitize-recover=all"],
}


class CheckError(Exception):
    """The check itself could not do its work (exit 2)."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what = what
        self.replay = replay


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.dir = os.path.join(VERIF, ".build", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.replays = os.path.join(VERIF, ".build", "replays")
        os.makedirs(self.replays, exist_ok=True)
        self.t0 = time.time()
        self.states = 0          # distinct states of the design model
        self.transitions = 0     # transitions of the design model
        self.traces = 0          # scenarios accepted by TLC
        self.events = 0          # events validated by TLC
        self.owned = 0           # events owned by the property
        self.ops = {}            # histogram of operations validated
        self.samples = []
        self.configs = []
        self.models = []
        self.assumptions = []
        self.pool = cf.ThreadPoolExecutor(NCPU)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rng(self, salt):
        return random.Random("%s/%s/%d" % (self.prop, salt, self.seed))

    def path(self, *p):
        return os.path.join(self.dir, *p)


def run(cmd, timeout=600, env=None, cwd=None, stdin=None):
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd,
                           input=stdin, text=True, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout or ""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
        return -99, out


# ------------------------------------------------------------------ building

def build(ctx, src, variant, defs=(), name=None, extra=()):
    """Compiles a driver against /repo's headers.  A driver uses the public API only: when it no
    longer compiles, the API no longer does what the specification's actions need."""
    base = name or os.path.splitext(os.path.basename(src))[0]
    out = ctx.path("%s.%s%s" % (base, variant, "".join("." + d for d in defs).replace("=", "")))
    srcp = src if os.path.isabs(src) else os.path.join(HARNESS, src)
    cmd = VARIANTS[variant] + ["-w", "-I" + os.path.join(REPO, "include"), "-I" + HARNESS] + [d if d[0] == "-" else "-D" + d for d in defs] + \
        list(extra) + [srcp, "-o", out]
    rc, o = run(cmd, timeout=600)
    if rc != 0:
        rc2, o2 = run(cmd, timeout=600)
        if rc2 == 0:
            return out
        if "error:" not in o2:
            raise CheckError("compiler failed on %s (%s):\n%s" % (base, variant, o2[-3000:]))
        # the compiler itself must be sane before the code is blamed
        rc3, o3 = run(VARIANTS[variant] + ["-x", "c++", "-", "-fsyntax-only"], stdin="#include <vector>\nint main(){}\n")
        if rc3 != 0:
            raise CheckError("compiler unusable:\n" + o3[-2000:])
        rp = os.path.join(ctx.replays, "%s_compile_%s_%s.txt" % (ctx.prop, base, variant))
        with open(rp, "w") as f:
            f.write("$ " + " ".join(cmd) + "\n" + o2)
        first = [x for x in o2.splitlines() if "error:" in x][:1]
        raise Violation("a program using the public API no longer compiles: %s" % (first[0] if first else "?"), rp)
    return out


def build_all(ctx, jobs):
    """jobs: list of (key, kwargs for build) -> {key: path}"""
    futs = {k: ctx.pool.submit(build, ctx, **kw) for k, kw in jobs}
    return {k: f.result() for k, f in futs.items()}


TSAN = {"TSAN_OPTIONS": "halt_on_error=1:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:exitcode=66:report_signal_unsafe=0"}


def raced(out, rc):
    """What the race detector said, for the event Crash."""
    said = [x for x in out.splitlines() if "WARNING: ThreadSanitizer" in x or "ERROR: ThreadSanitizer" in x][:1]
    said += [x.strip() for x in out.splitlines() if re.match(r"\s*#0 ", x)][:2]
    return re.sub(r'["\\\\]|[^ -~]', "_", " ".join(said))[-300:] if said else "exit %s" % rc


def drive_threads(ctx, binary, lines, tag, cfg="", threads=4, timeout=300, launch=()):
    """The scenarios dealt to several threads of one process; one trace per thread."""
    script = ctx.path(tag + ".script")
    base = ctx.path(tag + ".ndjson")
    with open(script, "w") as f:
        f.write("\n".join(lines) + "\n")
    rc, out = run(list(launch) + [binary, script, base, cfg], timeout=timeout, env=dict(TSAN, NZV_THREADS=str(threads)))
    with open(ctx.path(tag + ".log"), "w") as f:
        f.write(out)
    traces = []
    crashed = False
    for n in range(threads):
        p = "%s.%d" % (base, n)
        ls = open(p, errors="replace").read().splitlines() if os.path.exists(p) else []
        if ls and '"op":"Crash"' in ls[-1]:
            crashed = True
        if ls and ('"op":"End"' in ls[-1] or '"op":"Crash"' in ls[-1]):
            traces.append(("%s_t%d" % (tag, n), p))
    main = open(base, errors="replace").read() if os.path.exists(base) else ""
    if rc == 0 and len(traces) == threads and '"op":"Crash"' not in main:
        return traces
    if rc == 2 or rc == -99 or "FATAL: ThreadSanitizer" in out:
        raise CheckError("driver %s failed (%s):\n%s" % (binary, rc, out[-2000:]))
    said = raced(out, rc)
    if crashed and said.startswith("exit"):
        return traces
    p = base + ".race"
    with open(p, "w") as f:
        f.write('{"op":"Crash","why":"%s","dop":"%s","during":"%s"}\n' % (said, tag, tag))
    return [(tag + "_race", p)]


def drive_watched(ctx, binary, lines, tag, launch=(), timeout=300):
    """A driver with threads of its own, under the race detector."""
    script = ctx.path(tag + ".script")
    trace = ctx.path(tag + ".ndjson")
    with open(script, "w") as f:
        f.write("\n".join(lines) + "\n")
    rc, out = run(list(launch) + [binary, script, trace, ""], timeout=timeout, env=TSAN)
    with open(ctx.path(tag + ".log"), "w") as f:
        f.write(out)
    ls = open(trace, errors="replace").read().splitlines() if os.path.exists(trace) else []
    if rc == 2 or rc == -99 or "FATAL: ThreadSanitizer" in out or not ls:
        raise CheckError("driver %s failed (%s):\n%s" % (binary, rc, out[-2000:]))
    if rc != 0 or not ('"op":"End"' in ls[-1] or '"op":"Crash"' in ls[-1]):
        if not ls[-1].endswith("}"):
            ls.pop()
        ls.append('{"op":"Crash","why":"%s","dop":"%s","during":"%s"}' % (raced(out, rc), tag, tag))
        with open(trace, "w") as f:
            f.write("\n".join(ls) + "\n")
    return [(tag, trace)]


def drive(ctx, binary, lines, tag, cfg="", timeout=300):
    script = ctx.path(tag + ".script")
    trace = ctx.path(tag + ".ndjson")
    with open(script, "w") as f:
        f.write("\n".join(lines) + "\n")
    env = {"ASAN_OPTIONS": "detect_leaks=0:handle_abort=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:"
                           "allocator_may_return_null=1:detect_stack_use_after_return=1:use_sigaltstack=0",
           "UBSAN_OPTIONS": "print_stacktrace=0"}
    rc, out = run([binary, script, trace, cfg], timeout=timeout, env=env)
    text = open(trace).read() if os.path.exists(trace) else ""
    ls = text.splitlines()
    if rc == 2 or (rc != 0 and not ls):
        raise CheckError("driver %s failed (%s):\n%s" % (binary, rc, out[-2000:]))
    last = ls[-1] if ls else ""
    if '"op":"End"' not in last and '"op":"Crash"' not in last:
        if ls and not last.endswith("}"):
            ls.pop()
        done = json.loads(ls[-1])["op"] if ls else "start"
        said = [x for x in out.splitlines() if "runtime error:" in x or "ERROR: AddressSanitizer" in x][:1]
        said = re.sub(r'["\\\\]|[^ -~]', "_", said[0])[-200:] if said else "exit %s" % rc
        ls.append('{"op":"Crash","why":"%s","dop":"%s","during":"after %s"}' % (said, done, done))
        with open(trace, "w") as f:
            f.write("\n".join(ls) + "\n")
    with open(ctx.path(tag + ".log"), "w") as f:
        f.write(out)
    return trace


# ------------------------------------------------------------------ TLC

class TlcResult:
    pass


def tlc(ctx, module, cfg=None, env=None, workers=1, timeout=600, args=(), heap="2g", tag=""):
    meta = ctx.path("tlc_%s_%s" % (module, tag or hashlib.md5(repr((env, args, time.time(), random.random())).encode()).hexdigest()[:10]))
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-nowarning",
           "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
    rc, out = run(cmd, timeout=timeout, env=env, cwd=SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.rc, r.out, r.cmd = rc, out, " ".join(cmd)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    r.generated = int(m.group(1)) if m else 0
    r.distinct = int(m.group(2)) if m else 0
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    r.depth = int(m.group(1)) if m else 0
    r.finished = "Model checking completed" in out or "Finished in" in out
    return r


EVAL_ERR = re.compile(r"(Attempted to|was not in the domain|TLC threw an unexpected exception|evaluating the|In evaluation|CASE statement|The CHOOSE|Evaluating)")


def model_check(ctx, module, cfg=None, workers=4, timeout=800, min_states=2, heap="4g", args=()):
    """Exhaustive check of the design model. A failure here is a broken specification, not broken code."""
    r = tlc(ctx, module, cfg, workers=workers, timeout=timeout, heap=heap, args=args)
    if r.rc != 0 or "No error has been found" not in r.out:
        raise CheckError("design model %s failed (rc %s):\n%s" % (cfg or module, r.rc, r.out[-6000:]))
    if r.distinct < min_states:
        raise CheckError("design model %s is vacuous: %d states" % (cfg or module, r.distinct))
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.models.append("%s: %d distinct states, %d transitions" % (cfg or module, r.distinct, r.generated))
    return r


def model_edges(ctx, module, cfg=None, timeout=800, min_states=2, heap="4g"):
    """Exhaustive check that also emits every transition; returns the list of (from, action, to)."""
    r = model_check(ctx, module, cfg, workers=1, timeout=timeout, min_states=min_states, heap=heap)
    edges = []
    for line in r.out.splitlines():
        if line.startswith('"@T '):
            edges.append(tuple(json.loads(json.loads(line)[3:])))
    if not edges:
        raise CheckError("design model %s emitted no transition" % (cfg or module))
    return edges


def act_line(a):
    parts = [a["op"]]
    for k, v in a.items():
        if k == "op":
            continue
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, list):
            parts.append("%s=%s" % (k, ",".join(str(int(x)) for x in v)))
        else:
            parts.append("%s=%s" % (k, v))
    return " ".join(parts)


def cover_walks(edges, rng, max_len=80, begin="Begin", limit=None):
    """Scripts (lists of lines, one scenario each) that take every transition of the state graph at least once."""
    key = lambda s: json.dumps(s, sort_keys=True)
    succ = {}
    init = None
    for f, a, t in edges:
        kf, kt = key(f), key(t)
        if init is None:
            init = kf
        succ.setdefault(kf, []).append((act_line(a), kt))
    todo = {}
    total = 0
    for s, es in succ.items():
        # the same action may be emitted more than once
        uniq = sorted(set(es))
        rng.shuffle(uniq)
        succ[s] = uniq
        todo[s] = list(uniq)
        total += len(uniq)
    # BFS tree from init for shortest paths
    def path_to_todo(start):
        seen = {start: None}
        queue = [start]
        for s in queue:
            if todo.get(s):
                p = []
                while seen[s] is not None:
                    prev, line = seen[s]
                    p.append((line, s))
                    s = prev
                p.reverse()
                return p
            for line, t in succ.get(s, ()):
                if t not in seen:
                    seen[t] = (s, line)
                    queue.append(t)
        return None
    scenarios = []
    covered = 0
    while covered < total:
        cur = init
        walk = [begin]
        while len(walk) < max_len:
            if todo.get(cur):
                line, t = todo[cur].pop()
                covered += 1
                walk.append(line)
                cur = t
                continue
            p = path_to_todo(cur)
            if p is None:
                break
            if len(walk) + len(p) >= max_len and len(walk) > 1:
                break
            for line, s in p:
                walk.append(line)
                cur = s
        if len(walk) == 1:
            break
        scenarios.append(walk)
        if limit and len(scenarios) >= limit:
            break
    return scenarios, covered, total


# ------------------------------------------------------------------ trace validation

def split_trace(lines, target):
    """Splits at Begin events into chunks of about `target` events; every chunk is a complete trace."""
    chunks, cur = [], []
    for ln in lines:
        if '"op":"Begin"' in ln and len(cur) >= target:
            chunks.append(cur)
            cur = []
        cur.append(ln)
    if cur:
        chunks.append(cur)
    return chunks


def merge(ctx, traces, parts, name="merged"):
    """Many short traces into few TLC runs: scenarios of different configurations one after another.
    A trace that does not end normally stays alone."""
    out, whole = [], []
    for tag, path in traces:
        lines = [x for x in open(path).read().splitlines() if x]
        if lines and '"op":"End"' in lines[-1]:
            whole.append((tag, lines[:-1]))
        else:
            out.append((tag, path))
    groups = [[] for _ in range(min(parts, len(whole)))]
    for k, (tag, lines) in enumerate(sorted(whole, key=lambda x: -len(x[1]))):
        # every scenario says which configuration it is of
        lines = [x.replace('{"op":"Begin"', '{"op":"Begin","config":"%s"' % tag, 1) if x.startswith('{"op":"Begin"') else x for x in lines]
        min(groups, key=len).extend(lines)
    for k, lines in enumerate(groups):
        p = ctx.path("%s%d.ndjson" % (name, k))
        with open(p, "w") as f:
            f.write("\n".join(lines + ['{"op":"End"}']) + "\n")
        out.append(("%s%d" % (name, k), p))
    return out


def validate_file(ctx, module, path, env, cfg=None, timeout=800, heap="3g"):
    e = {"TRACE": path, "PROP": ctx.prop}
    e.update(env or {})
    r = tlc(ctx, module, cfg, env=e, workers=1, timeout=timeout, heap=heap)
    if r.rc == 0 and "No error has been found" in r.out:
        return True, None, r
    if r.rc == -99:
        raise CheckError("TLC timed out on %s" % path)
    if "TraceAccepted" in r.out or "Postcondition" in r.out or "postcondition" in r.out:
        if r.depth >= 1:
            return False, r.depth, r
    if EVAL_ERR.search(r.out) and not re.search(r"(OutOfMemory|StackOverflow|Parsing or semantic|could not be found|FileNotFound|Unknown operator)", r.out):
        # the event has no meaning in the specification: find how far the trace went
        m = re.findall(r"/\\ l = (\d+)", r.out)
        return False, int(m[-1]) if m else 1, r
    raise CheckError("TLC failed on %s (rc %s):\n%s" % (path, r.rc, r.out[-5000:]))


def describe_rejection(ctx, module, lines, idx):
    ev = lines[idx - 1] if idx - 1 < len(lines) else "?"
    return "event %d of the scenario is not a step of %s: %s" % (idx, module, ev[:600])


def validate(ctx, module, traces, env=None, cfg=None, chunk=4000, own=None, heap="3g"):
    """traces: list of (tag, path). Every trace must be accepted by TLC; raises Violation otherwise."""
    jobs = []
    for tag, path in traces:
        lines = [x for x in open(path).read().splitlines() if x]
        for n, ch in enumerate(split_trace(lines, chunk)):
            p = ctx.path("%s.%d.chunk" % (os.path.basename(path), n))
            if '"op":"End"' not in ch[-1] and '"op":"Crash"' not in ch[-1]:
                ch = ch + ['{"op":"End"}']
            with open(p, "w") as f:
                f.write("\n".join(ch) + "\n")
            jobs.append((tag, p, ch))
    # biggest first for balance
    jobs.sort(key=lambda j: -os.path.getsize(j[1]))
    futs = [(j, ctx.pool.submit(validate_file, ctx, module, j[1], env, cfg, 800, heap)) for j in jobs]
    bad = None
    for (tag, p, ch), f in futs:
        ok, idx, r = f.result()
        if ok:
            for ln in ch:
                ev = json.loads(ln)
                op = ev["op"]
                ctx.ops[op] = ctx.ops.get(op, 0) + 1
                if op == "Begin":
                    ctx.traces += 1
                elif op not in ("End", "Crash"):
                    ctx.events += 1
                    if own is None or own(op):
                        ctx.owned += 1
                        if len(ctx.samples) < 6 and len(ln) < 700 and (len(ctx.samples) == 0 or ctx.rng(len(ctx.samples) + ctx.owned).random() < 0.01):
                            ctx.samples.append({"config": tag, "event": ev})
        elif bad is None or (len(ch) < len(bad[2])):
            bad = (tag, p, ch, idx)
    if bad:
        tag, p, ch, idx = bad
        # isolate the scenario, confirm by a second, independent run
        start = 0
        for k in range(min(idx, len(ch))):
            if '"op":"Begin"' in ch[k]:
                start = k
        scen = ch[start:idx]
        rp = os.path.join(ctx.replays, "%s_%s.ndjson" % (ctx.prop, re.sub(r"\W+", "_", tag)))
        with open(rp, "w") as f:
            f.write("\n".join(scen) + "\n")
        ok2, idx2, r2 = validate_file(ctx, module, rp, env, cfg)
        if ok2:
            # the isolated scenario is accepted: re-run the full chunk
            ok3, idx3, r3 = validate_file(ctx, module, p, env, cfg)
            if ok3:
                raise CheckError("rejection of %s not repeatable" % p)
            shutil.copy(p, rp)
            raise Violation("[%s] %s" % (tag, describe_rejection(ctx, module, ch, idx3)), rp)
        tag = json.loads(scen[0]).get("config", tag)
        raise Violation("[%s] %s" % (tag, describe_rejection(ctx, module, scen, idx2)), rp)


def known_findings():
    """known-findings file: fixed entries are history, finding entries are suppressed one by one."""
    p = os.path.join(VERIF, "known-findings.jsonl")
    r = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln and ln.startswith("{"):
                r.append(json.loads(ln))
    return r


def evidence(ctx, level, violations, extra=None):
    cov = {
        "states": ctx.states,
        "transitions": ctx.transitions,
        "traces_validated_against_impl": ctx.traces,
        "events_validated": ctx.events,
        "events_owned_by_property": ctx.owned,
        "operations": dict(sorted(ctx.ops.items())),
        "configurations": sorted(set(ctx.configs)),
        "models": ctx.models,
        "samples": ctx.samples or ["none"],
    }
    if extra:
        cov.update(extra)
    d = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
         "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(d, f, indent=1)
