"""P01: SparsePtr against spec/Sparse.tla."""
import vlib

CFGS = {"huge": 8, "hugec": 8, "u8": 3, "int": 4, "cint": 3, "derived": 4, "cderived": 3}
OPS = ["New"] * 3 + ["Null", "SetPtr"] + ["SetStride"] * 2 + ["Copy"] * 2 + ["Offset"] * 10 + ["Sub"] * 5 + ["Diff"] * 4 + ["Compare"] * 3 + ["Convert"] * 3 + ["Deref"] * 3
BIG = [0, 1, -1, 2, -2, 127, 128, 255, 256, 32767, 65535, 65536, 2**31 - 1, 2**31, 2**31 + 1, -2**31, -2**31 - 1, 2**32 - 1, 2**32, 2**32 + 5, 2**40, -2**40, 2**45, -2**45, 2**62, -2**62]


def scripts(rng, cfg, nscen, length):
    out = []
    for _ in range(nscen):
        out.append("Begin")
        for _ in range(length):
            op = rng.choice(OPS)
            n = rng.choice(BIG) if rng.random() < 0.6 else rng.randrange(-300, 300)
            if rng.random() < 0.3:
                n = rng.randrange(-2**45, 2**45) >> rng.randrange(46)
            if "huge" in cfg:
                st = rng.choice([0, 1, -1, 2, 12, 4096, -4096, 2**20, 2**31 - 1, -2**31, -2**31 + 1, 2**30, 65535, rng.randrange(-2**31, 2**31)])
            else:
                st = rng.choice([0, 4, -4, 8, 12, 20, -20, 64, 1, -3, 1024, -4096])
            o, p = rng.randrange(3), rng.randrange(3)
            line = "%s o=%d p=%d a=%d st=%d n=%d ty=%d how=%d" % (op, o, p, rng.randrange(2**46), st, n, rng.choice([0, 0, 1, 1, 2, 3, rng.randrange(11)]), rng.randrange(16))
            out.append(line)
            if op == "Offset":
                out += [x % (o, p) for x in ("Diff o=%d p=%d", "Compare o=%d p=%d")]
                if rng.random() < 0.3:
                    out.append("Diff o=%d p=%d" % (p, o))
    return out


def check(ctx):
    variants = ["san17", "rel20"] if not ctx.thorough else ["san17", "rel20", "clang20", "rel17", "clang17", "san20", "rel23"]
    fb = {v: ctx.pool.submit(vlib.build, ctx, "drv_sparse.cpp", v) for v in variants}
    vlib.model_check(ctx, "MC_Big", min_states=1)
    edges = vlib.model_edges(ctx, "MC_Sparse", min_states=200)
    walks, covered, total = vlib.cover_walks(edges, ctx.rng("walk"), max_len=600)
    ctx.models.append("spec->code: %d of %d distinct transitions in %d scripts" % (covered, total, len(walks)))
    r = ctx.rng("walkhow")
    wl = ["%s ty=%d" % (x, r.choice([0, 2, 4, 6, 8])) if x.startswith("Offset") else x for w in walks for x in w]
    futs = []
    for v in variants:
        b = fb[v].result()
        for cfg, mul in CFGS.items():
            tag = "%s_%s" % (v, cfg)
            ctx.configs.append(tag)
            lines = scripts(ctx.rng(tag), cfg, mul * (1 if not ctx.thorough else 12), 150)
            futs.append((tag, ctx.pool.submit(vlib.drive, ctx, b, lines, tag, cfg)))
            if cfg == "u8" and (v == variants[0] or ctx.thorough):
                futs.append((tag + "_walk", ctx.pool.submit(vlib.drive, ctx, b, wl, tag + "_walk", cfg)))
    vlib.validate(ctx, "Trace_Sparse", vlib.merge(ctx, [(t, f.result()) for t, f in futs], 8), chunk=8000)
