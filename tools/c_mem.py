"""A01: helpers that address memory, against spec/Mem.tla."""
import vlib


def limbs(v):
    return ",".join(str((v >> (16 * n)) & 0xFFFF) for n in range(4))


def begin(rng):
    return "Begin kind=%d map=%d" % (rng.choice([0, 1, 2, 3, 4, 5, 5]), rng.randrange(3))


def script(rng, n):
    out = []
    for k in range(n):
        if k % 60 == 0:
            out.append(begin(rng))
        r = rng.random()
        how = rng.randrange(60)
        if r < 0.25:
            out.append("%s f=%d v=%d how=%d" % (rng.choice(["ReadField", "WriteField"]), rng.randrange(6), rng.randrange(1, 100), how))
        elif r < 0.5:
            out.append("%s k=%d v=%d how=%d" % (rng.choice(["SetKey", "Erase", "Retrieve", "RetrieveSet", "Retrieve"]), rng.randrange(6), rng.randrange(100), how))
        elif r < 0.7:
            out.append(rng.choice(["New s=%d c=%d", "New s=%d c=%d", "Reset s=%d c=%d"]) % (rng.randrange(4), rng.randrange(4)) if rng.random() < 0.5
                       else "Cast s=%d t=%d" % (rng.randrange(4), rng.randrange(4)))
        elif r < 0.85:
            out.append("%s c=%d v=%d how=%d" % (rng.choice(["Construct", "Construct", "Destroy", "DestroyNull"]), rng.randrange(3), rng.randrange(100), how))
        elif r < 0.96:
            v = rng.choice([0, 1, (1 << 64) - 1, 1 << 63, 0x7FF8000000000001, 0x7FF0000000000001, 0xFF8000017F800001, 0x80000000, rng.getrandbits(64), rng.getrandbits(64)])
            out.append("BitCast form=%d v=%s" % (rng.randrange(13), limbs(v)))
        elif r < 0.98:
            out.append("CountOf n=%d" % rng.choice([0, 1, 2, 15, 64, rng.randrange(400)]))
        else:
            out.append("Underlying form=%d v=%d" % (rng.randrange(4), rng.choice([0, -1, 127, -128, 65535, rng.randrange(-70000, 70000)])))
    return out


def check(ctx):
    th = ctx.thorough
    variants = ["san17", "rel20"] if not th else ["san17", "rel20", "clang20", "rel17", "clang17", "san20", "rel23"]
    fb = {v: ctx.pool.submit(vlib.build, ctx, "drv_mem.cpp", v) for v in variants}
    lines = []
    rng = ctx.rng("walks")
    for cfg in ("MC_Mem", "MC_Mem_data"):
        walks, cov, total = vlib.cover_walks(vlib.model_edges(ctx, "MC_Mem", cfg, min_states=100), rng, max_len=150)
        ctx.models.append("spec->code: %d of %d transitions of %s replayed" % (cov, total, cfg))
        for w in walks:
            lines += [begin(rng)] + [x + " how=%d" % rng.randrange(60) for x in w[1:]]
    futs = []
    for k, v in enumerate(variants):
        b = fb[v].result()
        jobs = [("random", script(ctx.rng("r/" + v), 4000 if not th else 40000))]
        if k == 0 or th:
            jobs.append(("model", lines))
        for tag, ls in jobs:
            ctx.configs.append("%s_%s" % (v, tag))
            futs.append(("%s_%s" % (v, tag), ctx.pool.submit(vlib.drive, ctx, b, ls, "%s_%s" % (v, tag))))
    vlib.validate(ctx, "Trace_Mem", vlib.merge(ctx, [(t, f.result()) for t, f in futs], 8 if not th else 16), chunk=1000000)
    ctx.assumptions.append("Field offsets are compared with the addresses of the fields in the compiler's own layout; keys and values are small integers or texts.")
