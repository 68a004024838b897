"""F01: Flags against spec/Flags.tla."""
import vlib

GROUPS = [['A1', 'A64', 'B8', 'B31', 'BC3'], ['A3', 'A33', 'C5', 'B33', 'B64'], ['A8', 'A32', 'C64', 'B7', 'BC40'],
          ['A9', 'A40', 'B3', 'B32', 'Spec6'], ['A16', 'A63', 'B1', 'B63', 'BC9'], ['A17', 'A31', 'C33', 'B16']]
WALK = ["A3", "B3", "BC3"]       # the enumerations of the size of the bounded model
OPS = ["New"] * 3 + ["Bin_or", "Bin_and", "Bin_xor"] * 2 + ["Self_or", "Self_and", "Self_xor", "Self_diff"] * 2 + ["Compl"] * 3 + ["Clear", "Intern", "Intern"] + ["Test"] * 3 + ["Observe"] * 6


def scripts(rng, nscen, length):
    out = []
    for _ in range(nscen):
        out.append("Begin")
        for _ in range(length):
            op = rng.choice(OPS)
            ends = [0, 7, 8, 15, 16, 30, 31, 32, 33, 62, 63]
            k = rng.choice(ends) if rng.random() < 0.5 else rng.randrange(64)
            m = [rng.choice(ends) if rng.random() < 0.5 else rng.randrange(64) for _ in range(rng.choice([0, 1, 2, 3, 6, 12, 40]))]
            out.append("%s o=%d a=%d b=%d k=%d j=%d how=%d set=%d m=%s" % (op, rng.randrange(3), rng.randrange(3), rng.randrange(3), k - rng.choice([0, 0, 64]),
                                                                         rng.randrange(64), rng.randrange(8), rng.randrange(2), ",".join(map(str, m))))
            if rng.random() < 0.2:
                out.append("Observe o=%d" % rng.randrange(3))
    return out


def check(ctx):
    variants = ["san17", "rel20"] if not ctx.thorough else ["san17", "rel20", "clang20", "rel17", "clang17", "san20", "rel23"]
    fb = {(v, g): ctx.pool.submit(vlib.build, ctx, "drv_flags.cpp", v, ["NZV_GROUP=%d" % g]) for v in variants for g in range(len(GROUPS))}
    edges = vlib.model_edges(ctx, "MC_Flags", min_states=50)
    walks, covered, total = vlib.cover_walks(edges, ctx.rng("walk"), max_len=400)
    ctx.models.append("spec->code: %d of %d distinct transitions in %d scripts" % (covered, total, len(walks)))
    wl = [x for w in walks for x in w]
    futs = []
    for (v, g), fut in fb.items():
        b = fut.result()
        for cfg in GROUPS[g]:
            tag = "%s_%s" % (v, cfg)
            ctx.configs.append(tag)
            lines = scripts(ctx.rng(tag), 3 if not ctx.thorough else 30, 120)
            futs.append((tag, ctx.pool.submit(vlib.drive, ctx, b, lines, tag, cfg)))
            if cfg in WALK and (v == variants[0] or ctx.thorough):
                futs.append((tag + "_walk", ctx.pool.submit(vlib.drive, ctx, b, wl, tag + "_walk", cfg)))
    merged = vlib.merge(ctx, [(t, f.result()) for t, f in futs], 8)
    vlib.validate(ctx, "Trace_Flags", merged, chunk=6000)
