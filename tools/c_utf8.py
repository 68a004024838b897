"""U01: UTF-8 conversions of strings and paths against spec/Utf8.tla."""
import vlib


def scalar(rng, path):
    r = rng.random()
    if path and r < 0.25:
        return rng.choice([47, 46, 97])
    if r < 0.4:
        return rng.choice([0, 1, 0x20, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0xFEFF])
    if r < 0.6:
        return rng.randrange(0x20, 0x7F)
    while True:
        c = rng.randrange(0x110000) if r < 0.7 else rng.randrange(0x10000) if r < 0.85 else rng.randrange(0x800)
        if not 0xD800 <= c <= 0xDFFF:
            return c


def text(rng, path=False, n=None):
    n = n or rng.choice([0, 1, 2, 3, 7, 8, 14, 15, 16, 17, 31, 32, 33, 60]) if rng.random() < 0.9 else rng.randrange(200)
    t = "".join(chr(scalar(rng, path)) for _ in range(n))
    return ",".join(str(b) for b in t.encode("utf-8"))


def script(rng, n):
    out = []
    for k in range(n):
        if k % 20 == 0:
            out.append("Begin")
        path = rng.random() < 0.5
        out.append("Hold s=" + text(rng, path))
        if path:
            out.append(rng.choice(["MakePath", "JoinPath"]))
    return out


def long(rng, sizes):
    out = ["Begin"]
    for n in sizes:
        out += ["Hold s=" + text(rng, False, n), "Hold s=" + text(rng, True, n), "MakePath"]
    return out


def each(limit):
    """Every scalar value of a range, alone."""
    out = ["Begin"]
    for c in limit:
        if not 0xD800 <= c <= 0xDFFF:
            out += ["Hold s=" + ",".join(str(b) for b in chr(c).encode("utf-8")), "MakePath"]
    return out


def check(ctx):
    th = ctx.thorough
    variants = ["san17", "rel20", "san20"] if not th else ["san17", "rel20", "clang20", "rel17", "clang17", "san20", "rel23"]
    fb = {v: ctx.pool.submit(vlib.build, ctx, "drv_utf8.cpp", v) for v in variants}
    lines = []
    for cfg in ("MC_Utf8", "MC_Utf8_path"):
        walks, cov, total = vlib.cover_walks(vlib.model_edges(ctx, "MC_Utf8", cfg, min_states=100), ctx.rng("w" + cfg), max_len=200)
        ctx.models.append("spec->code: %d of %d transitions of %s replayed" % (cov, total, cfg))
        lines += [x for w in walks for x in w]
    futs = []
    for v in variants:
        b = fb[v].result()
        jobs = [("random", script(ctx.rng("r/" + v), 300 if not th else 4000))]
        if v == variants[0] or v == "rel20":
            jobs.append(("model", lines))
        if v == "rel20":
            jobs.append(("scalars", each(range(256) if not th else list(range(0x800)) + list(range(0x800, 0x110000, 251)))))
            jobs.append(("long", long(ctx.rng("long"), [127, 255, 256, 260, 1025, 4100] + ([20000] if th else []))))
        for tag, ls in jobs:
            ctx.configs.append("%s_%s" % (v, tag))
            futs.append(("%s_%s" % (v, tag), ctx.pool.submit(vlib.drive, ctx, b, ls, "%s_%s" % (v, tag))))
    vlib.validate(ctx, "Trace_Utf8", vlib.merge(ctx, [(t, f.result()) for t, f in futs], 8), chunk=1000000)
    ctx.assumptions.append("Paths are those of the platform of the run (POSIX, libstdc++).")
