"""M01, M02: MemoryPool against spec/Pool.tla and spec/Life.tla."""
import vlib

CFGS = {"M01": ["elem", "elem64", "big", "int", "int32"], "M02": ["elem", "elem64", "big"]}
SIZES = [1, 2, 2, 3, 5, 64, 65, 70, 127]


def scripts(rng, nscen, length):
    out = []
    for k in range(nscen):
        sizes = [rng.choice([1, 2, 3, 3, 5]) if k % 3 else rng.choice(SIZES) for _ in range(3)]
        out.append("Begin bs=%s" % ",".join(map(str, sizes)))
        bias = rng.random()
        for n in range(length):
            o = 0 if rng.random() < 0.6 else rng.randrange(3)
            if n % 30 == 0:
                bias = rng.random()
            if rng.random() < 0.75:
                ops = ["Alloc"] * int(1 + 8 * bias) + ["Free"] * int(1 + 6 * (1 - bias)) + ["AllocNested"] + ["Construct"] + ["FreeNested", "FreeAlloc"]
            else:
                ops = ["Reset", "Clear", "New", "Move", "Move", "Move", "Foreign", "Foreign", "Assign", "Assign", "Observe"]
            op = rng.choice(ops)
            how = rng.randrange(6)
            if op == "Alloc":
                how = rng.choice([0, 0, 0, 0, 1, 2])
            thr = " thr=1" if op == "Alloc" and how == 0 and rng.random() < 0.15 else ""
            if op == "Alloc" and rng.random() < 0.1:      # fill the block at once
                for _ in range(rng.choice([4, 20])):
                    out.append("Alloc o=%d how=0 v=%d" % (o, rng.randint(1, 900)))
            n2 = rng.choice(SIZES)
            out.append("%s o=%d p=%d i=%d j=%d n=%d v=%d how=%d%s" % (op, o, rng.randrange(3), rng.randrange(1000), rng.randrange(1000), n2,
                                                                     rng.randint(1, 900), how, thr))
            if op in ("Move", "Clear") and rng.random() < 0.5:
                out.append("Observe o=%d" % rng.randrange(3))
    return out


def large(rng, nscen):
    """pools of many blocks, and of blocks of many entries: indices around the limits of the narrow integer types"""
    out = []
    for k in range(nscen):
        bs = [1, 300, 257, 2, 64, 3][k % 6]
        out.append("Begin bs=%d,2,2 live=500" % bs)
        n = 262 if bs < 64 else 320
        out += ["Alloc o=0 how=0 v=%d" % rng.randint(1, 900) for _ in range(n)]
        for _ in range(25):
            op = rng.choice(["Free"] * 4 + ["Alloc"] * 3 + ["Foreign"])
            out.append("%s o=0 i=%d j=%d v=%d how=0" % (op, rng.choice([0, 1, 100, 253, 254, 255, 256, 257, 258, rng.randrange(n)]), rng.randrange(n), rng.randint(1, 900)))
        out += ["Move o=1 p=0 how=%d" % k, "Observe o=1", rng.choice(["Reset o=1", "Clear o=1"]), "Alloc o=1 how=0 v=5", "Observe o=1"]
    return out


def check(ctx):
    variants = ["san17", "rel20"] if not ctx.thorough else ["san17", "rel20", "clang20", "rel17", "clang17"]
    fb = {v: ctx.pool.submit(vlib.build, ctx, "drv_pool.cpp", v) for v in variants}
    edges = vlib.model_edges(ctx, "MC_Pool", min_states=300)
    walks, covered, total = vlib.cover_walks(edges, ctx.rng("walk"), max_len=600, begin="Begin bs=2,2,2")
    ctx.models.append("spec->code: %d of %d distinct transitions in %d scripts" % (covered, total, len(walks)))
    bins = {v: f.result() for v, f in fb.items()}
    futs = []
    for v in variants:
        for cfg in CFGS[ctx.prop]:
            tag = "%s_%s" % (v, cfg)
            ctx.configs.append(tag)
            lines = scripts(ctx.rng(tag), 12 if not ctx.thorough else 120, 90 if not ctx.thorough else 160)
            life = "+life" if ctx.prop == "M02" else ""
            futs.append((tag, ctx.pool.submit(vlib.drive, ctx, bins[v], lines, tag, cfg + life)))
            if cfg == "elem" and (v == variants[0] or ctx.thorough):
                wl = [x for w in walks for x in w]
                futs.append((tag + "_walk", ctx.pool.submit(vlib.drive, ctx, bins[v], wl, tag + "_walk", cfg + life)))
    for v in variants[:1 if not ctx.thorough else 3]:
        tag = v + "_large"
        ctx.configs.append(tag)
        lines = large(ctx.rng(tag), 2 if not ctx.thorough else 12)
        futs.append((tag, ctx.pool.submit(vlib.drive, ctx, bins[v], lines, tag, "elem" + ("+life" if ctx.prop == "M02" else ""))))
    traces = [(t, f.result()) for t, f in futs]
    vlib.validate(ctx, "Trace_Pool", traces, chunk=4000)
