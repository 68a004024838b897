"""K02: every subsystem in several threads at once, and objects read by several, against spec/Threads.tla and the others."""
import json

import c_bits, c_bitset, c_cast, c_enum, c_fault, c_flags, c_fpu, c_func, c_hash, c_int, c_mem, c_own, c_pool, c_signal, c_sparse, c_utf8, c_vec
import vlib


def rep(f, k):
    """k scenarios at least: the generator is asked again."""
    def g(rng, m):
        return [x for _ in range(k * m) for x in f(rng)]
    return g


def own(prop):
    ops = c_own.PLAN[prop][3]
    return lambda r, m: c_own.scripts(r, ops, 8 * m, 60)


# left by a jump, abort() keeps its lock: no failing assertions in threads
UNCHECKED = ("-UNAZARA_DEBUG",)
# name: (driver, defines, configuration, trace specification, PROP it is asked for, scripts)
PLAN = {
    "pool": ("drv_pool.cpp", (), "elem+life", "Trace_Pool", "M02", lambda r, m: c_pool.scripts(r, 8 * m, 60)),
    "pool64": ("drv_pool.cpp", (), "int", "Trace_Pool", "M01", lambda r, m: c_pool.scripts(r, 8 * m, 40)),
    "fixed": ("drv_vec.cpp", ("GROUP=0",), "f5n+life", "Trace_Vec", "V03", lambda r, m: c_vec.scripts(r, "f5n", 6 * m, 60, False)),
    "hybrid": ("drv_vec.cpp", ("GROUP=1",), "h3m+life", "Trace_Vec", "V03", lambda r, m: c_vec.scripts(r, "h3m", 6 * m, 60, False)),
    "stack": ("drv_vec.cpp", ("GROUP=3",), "s5t+life", "Trace_Vec", "V04", lambda r, m: c_vec.scripts(r, "s5t", 6 * m, 60, True)),
    "bits8": ("drv_bitset.cpp", ("GROUP=0",), "u8v", "Trace_Bitset", "B01", lambda r, m: c_bitset.scripts("B01", r, "u8v", 6 * m, 60)),
    "bits64": ("drv_bitset.cpp", ("GROUP=1",), "u64v", "Trace_Bitset", "B02", lambda r, m: c_bitset.scripts("B02", r, "u64v", 6 * m, 60)),
    "bitsf": ("drv_bitset.cpp", ("GROUP=2",), "u16f", "Trace_Bitset", "B03", lambda r, m: c_bitset.scripts("B03", r, "u16f", 6 * m, 60)),
    "bitsh": ("drv_bitset.cpp", ("GROUP=5",), "u32h", "Trace_Bitset", "B04", lambda r, m: c_bitset.scripts("B04", r, "u32h", 6 * m, 60)),
    "emit": ("drv_signal.cpp", (), "si", "Trace_Signal", "S01", lambda r, m: c_signal.scripts(r, "S01", 8 * m, 60)),
    "connect": ("drv_signal.cpp", (), "cref", "Trace_Signal", "S02", lambda r, m: c_signal.scripts(r, "S02", 8 * m, 60)),
    "result": ("drv_result.cpp", (), "full", "Trace_Result", "R01", own("R01")),
    "exit": ("drv_own.cpp", ("NZV_PART=1",), "exit_fn", "Trace_ScopeExit", "O01", own("O01")),
    "pimpl": ("drv_own.cpp", ("NZV_PART=2",), "pimpl_heap", "Trace_Pimpl", "O02", own("O02")),
    "pimpli": ("drv_own.cpp", ("NZV_PART=2",), "pimpl_inlinethr", "Trace_Pimpl", "O02", own("O02")),
    "movable": ("drv_own.cpp", ("NZV_PART=3",), "mov_val", "Trace_Movable", "O03", own("O03")),
    "func": ("drv_func.cpp", (), "", "Trace_FuncRef", "G01", rep(lambda r: c_func.script(r, 60), 4)),
    "enum": ("drv_enum.cpp", (), "7", "Trace_EnumArr", "E01", lambda r, m: c_enum.scripts(r, 6 * m, 60)),
    "flags": ("drv_flags.cpp", ("NZV_GROUP=0",), "A64", "Trace_Flags", "F01", lambda r, m: c_flags.scripts(r, 6 * m, 60)),
    "sparse": ("drv_sparse.cpp", (), "int", "Trace_Sparse", "P01", lambda r, m: c_sparse.scripts(r, "int", 6 * m, 60)),
    "int": ("drv_int.cpp", (), "i32", "Trace_IntMath", "N02", rep(lambda r: c_int.script(r, "i32", 40), 4)),
    "bits": ("drv_bits.cpp", (), "u64", "Trace_Bits", "N01", rep(lambda r: c_bits.script(r, "u64", 15), 4)),
    "fpu": ("drv_fpu.cpp", UNCHECKED, "", "Trace_Fpu", "X01", rep(lambda r: c_fpu.script(r, 60), 4)),
    "hash": ("drv_hash.cpp", (), "", "Trace_Hash", "H01", lambda r, m: c_hash.script(r, 40 * m, 8)),
    "utf8": ("drv_utf8.cpp", (), "", "Trace_Utf8", "U01", rep(lambda r: c_utf8.script(r, 40), 4)),
    "cast": ("drv_cast.cpp", UNCHECKED, "", "Trace_Cast", "C01", rep(lambda r: c_cast.script(r, 60), 4)),
    "mem": ("drv_mem.cpp", UNCHECKED, "", "Trace_Mem", "A01", rep(lambda r: c_mem.script(r, 80), 4)),
    "fault": ("drv_fault.cpp", (), "b", "Trace_Fault", "K01", lambda r, m: c_fault.scripts(r, 9 * m, 40)),
}
THINGS = 14


def rounds(rng, n):
    out = []
    for k in range(n):
        if k % 8 == 0:
            out.append("Begin")
        out.append("Round n=%d seed=%d" % (rng.choice([4, 12, 30]), rng.getrandbits(30)))
    return out


def together(rng, states, k):
    """The calls the model has in progress at once, made by real threads, on every pair of objects in turn."""
    out = []
    for n in range(k):
        for m, st in enumerate(states):
            if (m + n) % 40 == 0:
                out.append("Begin")
            out.append("Together base=%d seed=%d %s" % ((m + n * 5) % THINGS, rng.getrandbits(30), " ".join("c%d=%d" % (t, c) for t, c in enumerate(st))))
    return out


def watch(ctx, builds):
    """How to start a watched program here: address randomisation may be more than the race detector bears."""
    b = builds["shared"].result()
    p = ctx.path("probe.script")
    with open(p, "w") as f:
        f.write("Begin\n")
    for launch in ([], ["setarch", "-R"]):
        rc, out = vlib.run(launch + [b, p, ctx.path("probe.ndjson"), ""], timeout=60)
        if "FATAL: ThreadSanitizer" not in out and "unexpected memory mapping" not in out and rc in (0, 66):
            return launch
    return None


def check(ctx):
    th = ctx.thorough
    watched = ["tsan20"] if not th else ["tsan20", "tsan17"]
    plain = ["rel20"] if not th else ["rel20", "san17", "clang20"]
    fb = {}
    for v in watched:
        fb[v] = {"shared": ctx.pool.submit(vlib.build, ctx, "drv_shared.cpp", v)}
        for src, defs in sorted({(p[0], p[1]) for p in PLAN.values()}):
            fb[v][(src, defs)] = ctx.pool.submit(vlib.build, ctx, src, v, defs)
    pb = {v: ctx.pool.submit(vlib.build, ctx, "drv_shared.cpp", v, (), None, ["-pthread"]) for v in plain}
    vlib.model_check(ctx, "MC_Threads", "MC_Threads" if not th else "MC_Threads_deep", workers=4, min_states=1000)
    for cfg, inv in (("MC_Threads_shared", "NoRace"), ("MC_Threads_object", "NoRace"), ("MC_Threads_sharedval", "Serial")):
        r = vlib.tlc(ctx, "MC_Threads", cfg)
        if "Invariant %s is violated" % inv not in r.out:
            raise vlib.CheckError("%s should have been rejected:\n%s" % (cfg, r.out[-2000:]))
        ctx.models.append("%s: %s violated, as it must be" % (cfg, inv))
    r = vlib.model_check(ctx, "MC_Threads", "MC_Threads_calls", workers=1, min_states=100)
    states = sorted({tuple(json.loads(json.loads(x)[3:])) for x in r.out.splitlines() if x.startswith('"@T ')})
    states = [s for s in states if sum(c >= 0 for c in s) > 1]
    if len(states) < 20:
        raise vlib.CheckError("no concurrent calls emitted")
    ctx.models.append("spec->code: all %d sets of calls in progress at once, made by real threads" % len(states))
    jobs = []
    launches = {}
    for v in watched:
        launches[v] = launch = watch(ctx, fb[v])
        if launch is None:
            ctx.assumptions.append("The race detector cannot run in this environment: %s builds only compare results." % v)
            continue
        for name, (src, defs, cfg, trace, prop, gen) in PLAN.items():
            tag = "%s_%s" % (v, name)
            ctx.configs.append(tag)
            lines = gen(ctx.rng(tag), 1 if not th else 6)
            jobs.append((trace, prop, ctx.pool.submit(vlib.drive_threads, ctx, fb[v][(src, defs)].result(), lines, tag, cfg, 4, 300, launch)))
        for k, lines in enumerate((rounds(ctx.rng(v + "r"), 80 if not th else 800), together(ctx.rng(v + "t"), states, 1 if not th else 14))):
            tag = "%s_shared%d" % (v, k)
            jobs.append(("Trace_Threads", "K02", ctx.pool.submit(vlib.drive_watched, ctx, fb[v]["shared"].result(), lines, tag, launch)))
        ctx.configs.append(v + "_shared")
    for v in plain:
        tag = v + "_shared"
        ctx.configs.append(tag)
        lines = rounds(ctx.rng(tag), 80 if not th else 800) + together(ctx.rng(tag + "t"), states, 1 if not th else 14)
        jobs.append(("Trace_Threads", "K02", ctx.pool.submit(lambda b, ls, t: [(t, vlib.drive(ctx, b, ls, t))], pb[v].result(), lines, tag)))
    groups = {}
    for trace, prop, f in jobs:
        groups.setdefault((trace, prop), []).extend(f.result())
    for (trace, prop), traces in sorted(groups.items()):
        merged = vlib.merge(ctx, traces, 1 if not th else 6, "%s_%s_" % (trace, prop)) if trace != "Trace_Threads" else traces
        vlib.validate(ctx, trace, merged, env={"PROP": prop}, chunk=1000000 if not th else 20000)
    ctx.assumptions.append("Races are those the race detector sees between the accesses of the runs made (it needs no particular interleaving: "
                           "two unordered accesses are enough); emitting a signal counts as changing it, for its place in the list of slots is kept in the signal.")
