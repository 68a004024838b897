"""N01: bit and byte utilities against spec/Bits.tla."""
import vlib

INT = {"i8": ("Nz::Int8", 8, 1), "u8": ("Nz::UInt8", 8, 0), "i16": ("Nz::Int16", 16, 1), "u16": ("Nz::UInt16", 16, 0),
       "i32": ("Nz::Int32", 32, 1), "u32": ("Nz::UInt32", 32, 0), "i64": ("Nz::Int64", 64, 1), "u64": ("Nz::UInt64", 64, 0),
       "char": ("char", 8, 1), "ll": ("long long", 64, 1), "ull": ("unsigned long long", 64, 0), "wchar": ("wchar_t", 32, 1),
       "c16": ("char16_t", 16, 0)}
FLT = {"f32": ("float", 32), "f64": ("double", 64)}


def value(rng, w):
    full = (1 << w) - 1
    k = rng.randrange(w)
    return rng.choice([
        0, 1, full, 1 << (w - 1), full >> 1, 1 << k, full ^ (1 << k), (1 << k) - 1, full ^ ((1 << k) - 1),
        rng.getrandbits(w), rng.getrandbits(w), rng.getrandbits(w) & rng.getrandbits(w), rng.getrandbits(w) & 0xFF,
        (1 << k) | (1 << rng.randrange(w)), (1 << (w // 2)) | rng.randrange(4), 0x80 << (8 * rng.randrange(w // 8)),
        rng.getrandbits(w) >> (w // 2), (rng.getrandbits(w) << (w // 2)) & full, full // 3, full // 255 * rng.randrange(256)])


def limbs(v):
    return ",".join(str((v >> (16 * n)) & 0xFFFF) for n in range(4))


def fvalue(rng, w):
    """Bit patterns of finite floating-point numbers (a swapped one may be anything)."""
    while True:
        v = value(rng, w)
        e = (v >> 23) & 0xFF if w == 32 else (v >> 52) & 0x7FF
        if e != (0xFF if w == 32 else 0x7FF):
            return v


def bufs(rng, n):
    out = []
    for _ in range(n):
        ln = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, rng.randrange(40)])
        off = rng.choice([0, 0, rng.randrange(ln + 1)])
        out.append("SwapBuf off=%d n=%d m=%s" % (off, rng.choice([0, 1, ln - off, rng.randrange(ln - off + 1)]) if ln else 0,
                                                  ",".join(str(rng.randrange(256)) for _ in range(ln))))
    return out


def script(rng, cfg, n):
    isf = cfg in FLT
    w = (FLT if isf else INT)[cfg][1]
    out = ["Begin"]
    for _ in range(n):
        v = fvalue(rng, w) if isf else value(rng, w)
        out.append("Load v=" + limbs(v))
        if isf:
            out += ["Endian", "Swap", "Load v=" + limbs(v)] if rng.random() < 0.5 else ["Swap", "Load v=" + limbs(v)]
            continue
        out.append("Look")
        for _ in range(rng.randrange(1, 8)):
            op = rng.choice(["Set", "Clear", "Toggle", "Asr", "Asr", "Reverse", "Swap", "Endian", "Look"])
            k = rng.choice([0, 1, w - 1, w // 2, rng.randrange(w), rng.randrange(w)])
            out.append("%s k=%d how=%d" % (op, k, rng.randrange(6)))
        out.append("Look")
    return out


def generate(path, rng, n):
    with open(path, "w") as f:
        for key, (t, w, sg) in INT.items():
            # the boundaries where an algorithm by halves turns, and random values
            vals = {0, 1, (1 << w) - 1, 1 << (w - 1)}
            for k in range(8, w, 8):
                vals |= {(1 << k) - 1, 1 << k, (1 << k) + 1} if n > 2 else {1 << k, (1 << k) - 1}
            for _ in range(n):
                vals.add(value(rng, w))
            for v in sorted(vals):
                f.write("NZV_CT(%s, 0x%xull)\n" % (t, v))
        for key, (t, w) in FLT.items():
            for _ in range(n):
                f.write("NZV_CTF(%s, Nz::UInt%d, 0x%xull)\n" % (t, w, fvalue(rng, w)))


def check(ctx):
    th = ctx.thorough
    variants = ["san17", "rel20"] if not th else ["san17", "rel20", "clang20", "rel17", "clang17", "san20", "rel23"]
    cvars = ["rel17", "clang20"] if not th else ["rel17", "rel20", "clang17", "clang20", "rel23"]
    fb = {v: ctx.pool.submit(vlib.build, ctx, "drv_bits.cpp", v) for v in variants}
    # constant evaluation: the compiler computes the results
    cb = {}
    parts = 1 if not th else 6
    for v in cvars:
        for part in range(parts):
            gen = ctx.path("gen_%s_%d.inc" % (v, part))
            generate(gen, ctx.rng("ct/%s/%d" % (v, part)), 2 if not th else 8)
            cb[(v, part)] = ctx.pool.submit(vlib.build, ctx, "drv_bits.cpp", v, ["NZV_CT_BUILD"], "ct%d" % part, ['-DNZV_GEN="%s"' % gen, "-fconstexpr-ops-limit=200000000" if "clang" not in v else "-fconstexpr-steps=100000000"])
    walks = {}
    for cfg, model in (("u8", "MC_Bits_u"), ("i8", "MC_Bits_s")):
        edges = vlib.model_edges(ctx, "MC_Bits", model, min_states=256)
        w, covered, total = vlib.cover_walks(edges, ctx.rng("walk" + cfg), max_len=100000)
        ctx.models.append("spec->code: %s is replayed whole: %d of %d transitions" % (cfg, covered, total))
        walks[cfg] = [x for y in w for x in y]
    fm = ctx.pool.submit(vlib.model_check, ctx, "MC_Bits", "MC_Bits_swap", 2)
    futs = []
    for v, fut in fb.items():
        b = fut.result()
        for cfg in list(INT) + list(FLT):
            tag = "%s_%s" % (v, cfg)
            ctx.configs.append(tag)
            rng = ctx.rng(tag)
            lines = script(rng, cfg, 25 if not th else 250)
            if cfg == "u8":
                lines += bufs(rng, 60 if not th else 600)
            futs.append((tag, ctx.pool.submit(vlib.drive, ctx, b, lines, tag, cfg)))
            if cfg in walks and (v == variants[0] or th):
                futs.append((tag + "_walk", ctx.pool.submit(vlib.drive, ctx, b, walks[cfg], tag + "_walk", cfg)))
    if th:
        # every value of the 16-bit types
        for cfg in ("u16", "i16"):
            lines = []
            for x in range(65536):
                lines += (["Begin"] if x % 2048 == 0 else []) + ["Load v=%d" % x, "Look", "Reverse", "Swap"]
            futs.append(("rel20_all_" + cfg, ctx.pool.submit(vlib.drive, ctx, fb["rel20"].result(), lines, "all_" + cfg, cfg)))
            ctx.configs.append("all 65536 values of " + cfg)
    for (v, part), fut in cb.items():
        tag = "constant%d_%s" % (part, v)
        ctx.configs.append(tag)
        futs.append((tag, ctx.pool.submit(vlib.drive, ctx, fut.result(), ["Begin"], tag, "")))
    merged = vlib.merge(ctx, [(t, f.result()) for t, f in futs], 8 if not th else 24)
    fm.result()
    vlib.validate(ctx, "Trace_Bits", merged, chunk=1000000)
    ctx.assumptions.append("The host is little-endian; long double and __int128 are not driven.")
