"""K01: whatever allocates memory, with any allocation refused, against spec/Fault.tla."""
import vlib

CFGS = ["a", "b", "c", "d"]
OPS = {
    "V": ["VPush"] * 6 + ["VPushOwn"] * 2 + ["VInsert"] * 4 + ["VResize"] * 3 + ["VReserve", "VErase", "VErase", "VClear"] + ["VCopy"] * 3 + ["VMove"] * 2 + ["VNew"],
    "B": ["BResize"] * 2 + ["BSet"] * 4 + ["BAppend"] * 5 + ["BWrite"] * 3 + ["BOp"] * 2 + ["BMake", "BPerform", "BPerform", "BNot", "BStr", "BStr", "BCopy", "BCopy", "BShift", "BSwap", "BClear"],
    "P": ["PAlloc"] * 12 + ["PFree"] * 3 + ["PReset", "PClear", "PNew", "PMove"],
    "S": ["SConnect"] * 6 + ["SGuard"] * 3 + ["SDrop", "SDrop", "SClear", "SMove"],
    "I": ["IMake"] * 3 + ["ICopy"] * 4 + ["IReset", "IMove"],
}
WIDTHS = [0, 1, 5, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48, 63, 64, 65, 127, 128, 129, 149]


def scripts(rng, nscen, length):
    out = []
    for k in range(nscen):
        out.append("Begin")
        kind = "VBPBSBIVB"[k % 9]
        fail = rng.choice([0.3, 0.6, 0.9])
        for _ in range(length):
            op = rng.choice(OPS[kind if rng.random() < 0.95 else rng.choice("VBPSI")])
            n = rng.choice(WIDTHS) if op[0] == "B" else rng.randrange(64)
            if op == "VResize" or op == "VNew":
                n = rng.choice([0, 1, 2, 3, 4, 5, 5, 6, 8, 13])
            o = 0 if rng.random() < 0.7 else 1
            thr = rng.choice([1, 1, 1, 2, 2, 3, 4, 6]) if rng.random() < fail else 0
            if thr and op[0] in "VB" and rng.random() < 0.5:
                if op[0] == "B" and rng.random() < 0.5:
                    out.append("BResize o=%d n=%d how=%d" % (o, rng.randrange(40), rng.randrange(2)))
                if op == "BResize":
                    n = rng.choice(WIDTHS[-8:])
            trim = " trim=1" if rng.random() < 0.4 else ""
            out.append("%s o=%d p=%d i=%d n=%d v=%d how=%d%s%s" % (op, o, rng.randrange(2), rng.randrange(60), n,
                                                                rng.randint(1, 190), rng.randrange(60), " thr=%d" % thr if thr else "", trim))
    return out


def check(ctx):
    variants = ["san17", "rel20"] if not ctx.thorough else ["san17", "rel20", "clang20", "rel17", "clang17", "san20", "rel23"]
    fb = {v: ctx.pool.submit(vlib.build, ctx, "drv_fault.cpp", v) for v in variants}
    edges = vlib.model_edges(ctx, "MC_Fault", min_states=300)
    walks, covered, total = vlib.cover_walks(edges, ctx.rng("walk"), max_len=600, begin="Begin")
    ctx.models.append("spec->code: %d of %d distinct transitions in %d scripts" % (covered, total, len(walks)))
    bins = {v: f.result() for v, f in fb.items()}
    futs = []
    for v in variants:
        for cfg in CFGS:
            tag = "%s_%s" % (v, cfg)
            ctx.configs.append(tag)
            lines = scripts(ctx.rng(tag), 27 if not ctx.thorough else 270, 60 if not ctx.thorough else 90)
            futs.append((tag, ctx.pool.submit(vlib.drive, ctx, bins[v], lines, tag, cfg)))
            if (v == variants[0] and cfg in ("b", "c")) or ctx.thorough:
                wl = [x for w in walks for x in w]
                futs.append((tag + "_walk", ctx.pool.submit(vlib.drive, ctx, bins[v], wl, tag + "_walk", cfg)))
    traces = [(t, f.result()) for t, f in futs]
    vlib.validate(ctx, "Trace_Fault", traces, chunk=4000)
