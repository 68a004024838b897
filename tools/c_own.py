"""R01, O01, O02, O03: owning and wrapping objects against spec/Result, ScopeExit, Pimpl, Movable."""
import vlib

# property -> (driver, trace module, {cfg: design models whose transitions are replayed}, operations)
PLAN = {
    "R01": ("drv_result.cpp", "Trace_Result", {"full": ["MC_Result"], "int": ["MC_Result"], "inte": ["MC_Result"], "voidi": ["MC_Result"], "fulli": ["MC_Result"], "void": ["MC_Result"], "move": ["MC_Result"]},
            ["New"] * 5 + ["Copy"] * 2 + ["Move"] * 2 + ["Mutate"] * 2 + ["Take", "Map", "Map", "Or", "Or", "Try", "Fault", "Fault", "Observe"]),
    "O01": ("drv_own.cpp", "Trace_ScopeExit", {"exit_fn": ["MC_ScopeExit"], "exit_std": ["MC_ScopeExit"]},
            ["New"] * 5 + ["Gone", "Reset"] + ["Call"] * 2 + ["Move"] * 4 + ["Scope"]),
    "O02": ("drv_own.cpp", "Trace_Pimpl", dict([("pimpl_" + k, ["MC_Pimpl_heap"]) for k in ("heap", "heapna", "heapthr", "heapnathr", "heapmove")]
            + [("pimpl_" + k, ["MC_Pimpl_inline"]) for k in ("inline", "inlinena", "inlinethr", "inlinenathr", "inlinemove", "inlinemovethr", "inlinealigned")]),
            ["New"] * 3 + ["Emplace", "Reset"] + ["Assign"] * 2 + ["Copy"] * 4 + ["Move"] * 4 + ["Observe"]),
    "O03": ("drv_own.cpp", "Trace_Movable", {"mov_ptr": ["MC_Movable_pointer"], "mov_lit": ["MC_Movable_literal"], "mov_lit8": ["MC_Movable_literal"], "mov_val": ["MC_Movable_value"]},
            ["New"] * 4 + ["Default"] + ["Copy"] * 3 + ["Move"] * 3 + ["Take", "Observe"]),
}
PART = {"O01": ["NZV_PART=1"], "O02": ["NZV_PART=2"], "O03": ["NZV_PART=3"]}
BASE = {"MC_Pimpl_heap": "MC_Pimpl", "MC_Pimpl_inline": "MC_Pimpl", "MC_Movable_pointer": "MC_Movable", "MC_Movable_literal": "MC_Movable", "MC_Movable_value": "MC_Movable"}


def scripts(rng, ops, nscen, length):
    out = []
    for _ in range(nscen):
        out.append("Begin")
        for _ in range(length):
            op = rng.choice(ops)
            if rng.random() < 0.25:
                op = "Observe" if "Observe" in ops else op
            out.append("%s o=%d p=%d k=%d v=%d how=%d n=%d thr=%d" % (op, rng.randrange(4), rng.randrange(4), rng.randrange(2), rng.choice([0, rng.randrange(1, 800), rng.randrange(1, 800), rng.randrange(1, 800)]),
                                                                     rng.randrange(1008), rng.randrange(6), rng.random() < 0.25))
    if "Scope" in ops:
        out.append("Begin")
        out += ["Scope n=%d how=%d" % (n, h) for n in range(6) for h in range(12)]
    return out


def check(ctx):
    src, trace, cfgs, ops = PLAN[ctx.prop]
    variants = ["san17", "rel20"] if not ctx.thorough else ["san17", "rel20", "clang20", "rel17", "clang17", "san20", "rel23"]
    fb = {v: ctx.pool.submit(vlib.build, ctx, src, v, PART.get(ctx.prop, ())) for v in variants}
    walks = {}
    for m in sorted({m for ms in cfgs.values() for m in ms}):
        edges = vlib.model_edges(ctx, BASE.get(m, m), m, min_states=4)
        w, covered, total = vlib.cover_walks(edges, ctx.rng("walk" + m), max_len=400)
        ctx.models.append("spec->code %s: %d of %d distinct transitions in %d scripts" % (m, covered, total, len(w)))
        r = ctx.rng("walkhow" + m)
        walks[m] = [x if "how=" in x or x == "Begin" else "%s how=%d" % (x, r.randrange(1008)) for s in w for x in s]
    bins = {v: f.result() for v, f in fb.items()}
    futs = []
    for v in variants:
        for cfg, ms in cfgs.items():
            tag = "%s_%s" % (v, cfg)
            ctx.configs.append(tag)
            lines = scripts(ctx.rng(tag), ops, 25 if not ctx.thorough else 250, 120)
            futs.append((tag, ctx.pool.submit(vlib.drive, ctx, bins[v], lines, tag, cfg)))
            for m in ms:
                if v == variants[0] or ctx.thorough:
                    futs.append((tag + "_walk", ctx.pool.submit(vlib.drive, ctx, bins[v], walks[m], tag + "_walk", cfg)))
    vlib.validate(ctx, trace, [(t, f.result()) for t, f in futs], chunk=5000)
