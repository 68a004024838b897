"""S01, S02: Signal against spec/Signal.tla (and the list algorithm of MC_SigEmit, which refines it)."""
import vlib

OPS_S01 = ["HConnect"] * 5 + ["GConnect"] * 2 + ["HDisc"] * 5 + ["GDisc"] * 2 + ["HCopy", "GMove", "GGone", "HFromG"] + ["Emit"] * 4 + ["SClear"]
OPS_S02 = ["HConnect"] * 4 + ["GConnect"] * 3 + ["HDisc"] * 2 + ["GDisc"] + ["HCopy"] * 2 + ["HMove"] * 2 + ["HFromG", "GFromH", "GFromH", "GFromH"] + \
    ["GMove"] * 2 + ["GGone"] + ["SClear", "SGone", "SCopy"] + ["SMove"] * 3 + ["Emit"] * 4


def one(rng, op):
    return "%s s=%d p=%d h=%d k=%d g=%d how=%d v=%d" % (op, rng.choice([0, 0, 0, 1, 2]), rng.randrange(3), rng.randrange(5), rng.randrange(5),
                                                        rng.randrange(3), rng.randrange(16), rng.randrange(1, 9999))


def scripts(rng, prop, nscen, length):
    out = []
    for _ in range(nscen):
        out.append("Begin")
        ops = OPS_S01 if prop == "S01" else OPS_S02
        ret = rng.choice([0.25, 0.4, 0.6]) if prop == "S01" else 0.75
        for k in range(rng.randrange(6)):
            out.append("HConnect s=0 h=%d how=%d" % (k % 5, rng.randrange(16)))
        for _ in range(length):
            if rng.random() < ret:
                out.append("Throw" if rng.random() < 0.04 else "Ret")
            else:
                out.append(one(rng, rng.choice(ops)))
        out += ["Ret"] * 8 + ["Emit s=%d v=%d" % (s, 5 + s) for s in range(3)]
    return out


def many(rng, prop):
    """several hundred slots on one signal"""
    out = ["Begin"] + ["HConnect s=0 h=%d how=%d" % (rng.randrange(5), rng.randrange(16)) for _ in range(270)]
    for n in range(3):
        out.append("Emit s=0 v=%d" % (n + 1))
        for _ in range(290):
            out.append("Ret")
            if rng.random() < 0.04:
                out.append(one(rng, rng.choice(["HConnect", "HDisc", "HDisc", "GConnect", "GDisc"])).replace("s=1", "s=0").replace("s=2", "s=0"))
        if n == 1 and prop == "S02":
            out += ["SMove s=1 p=0 how=0", "SMove s=0 p=1 how=1"]
    return out + ["Ret"] * 8


def check(ctx):
    variants = ["san17", "rel20"] if not ctx.thorough else ["san17", "rel20", "clang20", "rel17", "clang17"]
    fb = {v: ctx.pool.submit(vlib.build, ctx, "drv_signal.cpp", v) for v in variants}
    if ctx.prop == "S01":
        vlib.model_check(ctx, "MC_SigEmit", "MC_SigEmit_refine", workers=4, min_states=10000)
        if ctx.thorough:
            vlib.model_check(ctx, "MC_SigEmit", "MC_SigEmit_deep", workers=6, min_states=10000)
        edges = vlib.model_edges(ctx, "MC_SigEmit", "MC_SigEmit_walk", min_states=300)
    else:
        vlib.model_check(ctx, "MC_SigLife", "MC_SigLife_big", workers=4, min_states=1000)
        edges = vlib.model_edges(ctx, "MC_SigLife", "MC_SigLife_walk", min_states=300)
    walks, covered, total = vlib.cover_walks(edges, ctx.rng("walk"), max_len=500)
    ctx.models.append("spec->code: %d of %d distinct transitions in %d scripts" % (covered, total, len(walks)))
    wl = []
    r = ctx.rng("walkhow")
    for w in walks:
        wl += ["%s how=%d" % (x, r.randrange(16) if "GFromH" not in x else 0) if "how=" not in x and x not in ("Auto", "Ret", "Throw", "Begin") else x for x in w if x != "Auto"]
        wl += ["Ret"]
    bins = {v: f.result() for v, f in fb.items()}
    futs = []
    for v in variants:
        for cfg in ["si", "cref", "none"]:
            tag = "%s_%s" % (v, cfg)
            ctx.configs.append(tag)
            lines = scripts(ctx.rng(tag), ctx.prop, 40 if not ctx.thorough else 300, 120)
            if cfg == "si":
                lines += many(ctx.rng(tag + "many"), ctx.prop)
            futs.append((tag, ctx.pool.submit(vlib.drive, ctx, bins[v], lines, tag, cfg)))
            if (cfg == "si" and v == "san17") or ctx.thorough:
                futs.append((tag + "_walk", ctx.pool.submit(vlib.drive, ctx, bins[v], wl, tag + "_walk", cfg)))
    traces = [(t, f.result()) for t, f in futs]
    own = (lambda op: op in ("Emit", "Call", "Return", "Throw", "EmitEnd")) if ctx.prop == "S01" else (lambda op: op not in ("Return", "Throw"))
    vlib.validate(ctx, "Trace_Signal", traces, own=own, chunk=5000)
