"""E01: EnumArray against spec/EnumArr.tla."""
import vlib

CFGS = {"1": 3, "2": 6, "3": 8, "3b": 8, "5": 6, "7": 6, "64": 1, "200": 1, "256": 1, "260": 1, "300": 1}
OPS = ["Write"] * 5 + ["Fill", "Copy", "Swap", "Begin_it", "End_it", "End_it"] + ["Step"] * 6 + ["Move"] * 4 + ["Offset"] * 4 + ["WriteAt"] * 3 + ["Deref"] * 3 + \
    ["Compare"] * 4 + ["Observe"] * 4


def scripts(rng, nscen, length):
    out = []
    for _ in range(nscen):
        out.append("Begin")
        for _ in range(length):
            out.append("%s o=%d p=%d i=%d j=%d k=%d v=%d d=%d how=%d" % (rng.choice(OPS), rng.randrange(3), rng.randrange(3), rng.randrange(3), rng.randrange(3),
                                                                       rng.randrange(600), rng.choice([0, 1, 2, rng.randrange(200)]),
                                                                       rng.choice([-1, 1, 0, rng.randrange(-8, 9), rng.randrange(-300, 300)]), rng.randrange(12)))
    return out


def check(ctx):
    variants = ["san17", "rel20"] if not ctx.thorough else ["san17", "rel20", "clang20", "rel17", "clang17", "san20", "rel23"]
    fb = {v: ctx.pool.submit(vlib.build, ctx, "drv_enum.cpp", v) for v in variants}
    edges = vlib.model_edges(ctx, "MC_EnumArr", min_states=500)
    walks, covered, total = vlib.cover_walks(edges, ctx.rng("walk"), max_len=600)
    ctx.models.append("spec->code: %d of %d distinct transitions in %d scripts" % (covered, total, len(walks)))
    r = ctx.rng("walkhow")
    wl = [x if "how=" in x or x == "Begin" else "%s how=%d" % (x, r.randrange(12)) for w in walks for x in w]
    futs = []
    for v in variants:
        b = fb[v].result()
        for cfg, mul in CFGS.items():
            tag = "%s_%s" % (v, cfg)
            ctx.configs.append(tag)
            lines = scripts(ctx.rng(tag), mul * (1 if not ctx.thorough else 12), 150)
            futs.append((tag, ctx.pool.submit(vlib.drive, ctx, b, lines, tag, cfg)))
            if cfg == "2" and (v == variants[0] or ctx.thorough):
                futs.append((tag + "_walk", ctx.pool.submit(vlib.drive, ctx, b, wl, tag + "_walk", cfg)))
    vlib.validate(ctx, "Trace_EnumArr", vlib.merge(ctx, [(t, f.result()) for t, f in futs], 8), chunk=8000)
