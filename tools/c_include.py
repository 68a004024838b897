"""Z01: headers alone, together, in any order and in several translation units, against spec/Include.tla."""
import glob
import json
import os

import vlib

# in the order of the numbers harness/unit.cpp gives them
KNOWN = ["Algorithm", "Assert", "Bitset", "CallOnExit", "Concepts", "ConstantEvaluated", "Constants", "DebugBreak", "Endianness", "EnumArray", "FixedVector",
         "Flags", "FunctionRef", "FunctionTraits", "Hash", "MathUtils", "MemoryHelper", "MemoryPool", "MovablePtr", "MovableValue", "OffsetOf", "PathUtils",
         "Prerequisites", "PrivateImpl", "Result", "Signal", "SparsePtr", "StackArray", "StackVector", "StringHash", "StringUtils", "TypeList", "TypeName",
         "TypeTag", "TypeTraits"]
CONFIGS = {"gcc17": ["g++", "-std=c++17"], "gcc20": ["g++", "-std=c++20"], "gcc23": ["g++", "-std=c++23"],
           "clang17": ["clang++", "-std=c++17"], "clang20": ["clang++", "-std=c++20"], "clang23": ["clang++", "-std=c++23"],
           "gcc17n": ["g++", "-std=c++17", "-DNDEBUG", "-O1"]}


def header(n):
    return "NazaraUtils/%s.hpp" % (KNOWN[n] if isinstance(n, int) else n)


def program(ctx, cfg, tag, first, second):
    """Builds and runs a program of two units; returns its event."""
    d = ctx.path("%s_%s" % (cfg, tag))
    os.makedirs(d)
    ev = {"op": "Program", "config": cfg, "first": [h for h in first if isinstance(h, int)], "second": [h for h in second if isinstance(h, int)],
          "built": 0, "ran": 0, "uses1": [], "uses2": [], "again": []}
    objs = []
    base = CONFIGS[cfg] + ["-w", "-I" + os.path.join(vlib.REPO, "include")]
    log = ""
    ok = True
    for u, order in enumerate((first, second)):
        with open(d + "/order%d.h" % u, "w") as f:
            for h in order:
                f.write("#include <%s>\n" % header(h))
            for h in sorted({h for h in order if isinstance(h, int)}):
                f.write("#define NZV_%s\n" % KNOWN[h])
        with open(d + "/calls%d.h" % u, "w") as f:
            for h in sorted({h for h in order if isinstance(h, int)}):
                f.write("Use%s();\n" % KNOWN[h])
        o = d + "/u%d.o" % u
        cmd = base + ["-I" + d, "-DNZV_TU=%d" % u, '-DNZV_ORDER="order%d.h"' % u, '-DNZV_CALLS="calls%d.h"' % u, "-c", os.path.join(vlib.HARNESS, "unit.cpp"), "-o", o]
        rc, out = vlib.run(cmd, timeout=300)
        if rc != 0:
            if "error:" not in out:
                raise vlib.CheckError("compiler failed:\n" + out[-2000:])
            ok = False
            log = [x for x in out.splitlines() if "error:" in x][0]
            break
        objs.append(o)
    if ok:
        rc, out = vlib.run(CONFIGS[cfg] + [os.path.join(vlib.HARNESS, "unit_main.cpp")] + objs + ["-o", d + "/prog"], timeout=300)
        if rc != 0:
            if "multiple definition" not in out and "undefined reference" not in out:
                raise vlib.CheckError("linker failed:\n" + out[-2000:])
            log = [x for x in out.splitlines() if "multiple definition" in x or "undefined reference" in x][0]
        else:
            ev["built"] = 1
            rc, out = vlib.run([d + "/prog"], timeout=60)
            ls = out.splitlines()
            if rc == 0 and len(ls) == 3:
                ev["ran"] = 1
                ev["uses1"], ev["uses2"], ev["again"] = (json.loads(x) for x in ls)
    if log:
        ev["why"] = "".join(c for c in log if c.isalnum() or c in " :._/<>(),-")[-200:]
    for o in objs + [d + "/prog"]:
        if os.path.exists(o):
            os.remove(o)
    return ev


def check(ctx):
    th = ctx.thorough
    r = vlib.model_check(ctx, "MC_Include", workers=1, min_states=1000)
    orders = sorted({x for x in r.out.splitlines() if x.startswith('"@T ')})
    orders = [json.loads(json.loads(x)[3:]) for x in orders]
    if len(orders) < 1000:
        raise vlib.CheckError("no programs emitted")
    # headers this specification has no use for are included all the same
    others = sorted(set(os.path.basename(x)[:-4] for x in glob.glob(os.path.join(vlib.REPO, "include/NazaraUtils/*.hpp"))) - set(KNOWN))
    everything = list(range(len(KNOWN))) + others
    plan = []
    for cfg in (["gcc17", "clang20"] if not th else list(CONFIGS)):
        for h in everything:
            plan.append((cfg, "alone_%s" % h, [h, h], [h]))
    for cfg in (["gcc20", "clang17"] if not th else list(CONFIGS)):
        rng = ctx.rng("orders/" + cfg)
        for k in range(2 if not th else 8):
            a, b = list(everything), list(everything)
            rng.shuffle(a)
            rng.shuffle(b)
            if k == 0:
                a, b = sorted(everything, key=str), sorted(everything, key=str, reverse=True)
            plan.append((cfg, "all_%d" % k, a, b))
        for k in range(8 if not th else 60):
            o = rng.choice(orders)
            m = rng.sample(range(len(KNOWN)), 4)
            plan.append((cfg, "model_%d" % k, [m[x - 1] for x in o[0]], [m[x - 1] for x in o[1]]))
    if th:
        # every ordered pair
        for a in range(len(KNOWN)):
            for b in range(len(KNOWN)):
                if a < b:
                    plan.append(("gcc20" if (a + b) % 2 else "clang17", "pair_%d_%d" % (a, b), [a, b], [b, a]))
    futs = [(cfg, ctx.pool.submit(program, ctx, cfg, tag, x, y)) for cfg, tag, x, y in plan]
    by = {}
    for cfg, f in futs:
        by.setdefault(cfg, []).append(f.result())
    path = ctx.path("programs.ndjson")
    with open(path, "w") as f:
        for cfg, evs in by.items():
            ctx.configs.append(cfg)
            f.write(json.dumps({"op": "Begin", "config": cfg}) + "\n")
            for e in evs:
                f.write(json.dumps(e) + "\n")
        f.write('{"op":"End"}\n')
    ctx.models.append("spec->code: %d programs of two units, %d of them with the inclusion orders of the model" % (len(plan), sum(1 for p in plan if p[1].startswith("model"))))
    vlib.validate(ctx, "Trace_Include", [("programs", path)], chunk=1000000)
    ctx.assumptions.append("The uses of a header are those of harness/unit.cpp; declarations they do not touch are compiled but not instantiated.")
