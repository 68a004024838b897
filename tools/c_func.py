"""G01: references to callables against spec/FuncRef.tla."""
import vlib


def script(rng, n):
    out = []
    for k in range(n):
        if k % 60 == 0:
            out.append("Begin")
        r = rng.random()
        if r < 0.18:
            out.append("Bind r=%d c=%d m=%d how=%d" % (rng.randrange(7), rng.randrange(7), rng.randrange(2), rng.randrange(2)))
        elif r < 0.26:
            out.append("BindRef r=%d n=%d how=%d" % (rng.randrange(4), rng.randrange(3), rng.randrange(2)))
        elif r < 0.30:
            out.append("Null r=%d" % rng.randrange(7))
        elif r < 0.42:
            out.append("Copy r=%d s=%d how=%d" % (rng.randrange(7), rng.randrange(7), rng.randrange(4)))
        elif r < 0.47:
            out.append("Swap r=%d s=%d" % (rng.randrange(7), rng.randrange(7)))
        elif r < 0.52:
            out.append("SetAcc c=%d v=%d" % (rng.randrange(7), rng.randrange(-50, 50)))
        elif r < 0.55:
            out.append("Flip")
        elif r < 0.85:
            out.append("Invoke r=%d x=%d" % (rng.randrange(7), rng.choice([1, 2, 13, -5, 0, rng.randrange(-300, 300)])))
        elif r < 0.95:
            out.append("Pass param=%d given=%d how=%d v=%d" % (rng.randrange(4), rng.randrange(2), rng.randrange(3), rng.randrange(1000)))
        else:
            out.append("Result how=%d v=%d" % (rng.randrange(8), rng.randrange(1000)))
    return out


def every(rng):
    out = ["Begin"]
    for p in range(4):
        for g in range(2):
            for h in range(3):
                out.append("Pass param=%d given=%d how=%d v=%d" % (p, g, h, rng.randrange(1000)))
    for h in range(8):
        out.append("Result how=%d v=%d" % (h, rng.randrange(1000)))
    for r in range(7):
        for c in range(7):
            for m in range(2):
                for h in range(2):
                    out += ["Bind r=%d c=%d m=%d how=%d" % (r, c, m, h), "Invoke r=%d x=%d" % (r, rng.choice([1, 13, -7]))]
    return out


def check(ctx):
    th = ctx.thorough
    variants = ["san17", "rel20"] if not th else ["san17", "rel20", "clang20", "rel17", "clang17", "san20", "rel23"]
    fb = {v: ctx.pool.submit(vlib.build, ctx, "drv_func.cpp", v) for v in variants}
    edges = vlib.model_edges(ctx, "MC_FuncRef", "MC_FuncRef" if th else "MC_FuncRef_quick", min_states=100)
    walks, cov, total = vlib.cover_walks(edges, ctx.rng("walks"), max_len=200)
    ctx.models.append("spec->code: %d of %d transitions of the model replayed" % (cov, total))
    futs = []
    for k, v in enumerate(variants):
        b = fb[v].result()
        jobs = [("random", script(ctx.rng("r/" + v), 6000 if not th else 60000)), ("every", every(ctx.rng("e/" + v)))]
        if k == 0:
            jobs.append(("model", [x for w in walks for x in w]))
        for tag, lines in jobs:
            ctx.configs.append("%s_%s" % (v, tag))
            futs.append(("%s_%s" % (v, tag), ctx.pool.submit(vlib.drive, ctx, b, lines, "%s_%s" % (v, tag))))
    vlib.validate(ctx, "Trace_FuncRef", vlib.merge(ctx, [(t, f.result()) for t, f in futs], 8 if not th else 16), chunk=1000000)
    ctx.assumptions.append("A reference is invoked only while the callable it names is alive, as for any reference.")
