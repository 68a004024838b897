"""H01: hashes against spec/Hash.tla."""
import vlib


def byte(rng):
    return rng.choice([0, 1, 0x41, 0x7F, 0x80, 0x81, 0xFF, 0xC3, 0xE2, rng.randrange(256), rng.randrange(256), rng.randrange(128, 256), rng.randrange(32, 127)])


def text(rng, n):
    mode = rng.randrange(4)
    if mode == 0:
        return [rng.randrange(32, 127) for _ in range(n)]
    if mode == 1:
        return [rng.randrange(1, 256) for _ in range(n)]
    return [byte(rng) for _ in range(n)]


def limbs(v):
    return ",".join(str((v >> (16 * n)) & 0xFFFF) for n in range(4))


def num(rng):
    return rng.choice([0, 1, rng.randrange(100), rng.getrandbits(64), rng.getrandbits(64), (1 << 64) - 1, 1 << rng.randrange(64), (1 << rng.randrange(64)) - 1])


def script(rng, n, scen):
    out = []
    for _ in range(scen):
        out.append("Begin")
        for _ in range(n):
            op = rng.choice(["Append", "Append", "Append", "Hash", "Hash", "Clear", "StrHash", "Intern", "Combine", "CombineAll"])
            if op == "Append":
                out.append("Append m=" + ",".join(map(str, text(rng, rng.choice([1, 1, 2, 3, 4, 7, 8, 9, 30, rng.randrange(1, 100)])))))
                out.append("Hash")
            elif op in ("Combine", "CombineAll"):
                out.append("%s a=%s b=%s c=%s d=%d how=%d" % (op, limbs(num(rng)), limbs(num(rng)), limbs(num(rng)), rng.randrange(1000), rng.randrange(5)))
            else:
                out.append(op)
                if op == "Clear" and rng.random() < 0.5:
                    t = rng.choice(["97", "97,98", "255", "128,97", "97,0"])     # texts seen before
                    out += ["Append m=" + t, "Hash", "Intern", "StrHash", "Intern"]
    return out


def singles():
    """Every one-byte string, and every byte after another one."""
    out = ["Begin"]
    for b in range(256):
        out += ["Clear", "Append m=%d" % b, "Hash", "Append m=%d" % b, "Hash"]
    return out


def generate(path, rng, n):
    with open(path, "w") as f:
        for k in range(n):
            ln = rng.choice([0, 1, 1, 2, 3, 5, 9, 17, rng.randrange(40)])
            t = text(rng, ln)
            f.write("NZV_TEXT(%d, %s%s)\n" % (ln, "true" if 0 in t else "false", "".join(", %d" % b for b in t)))


def check(ctx):
    th = ctx.thorough
    variants = ["san17", "rel20"] if not th else ["san17", "rel20", "clang20", "rel17", "clang17", "san20", "rel23"]
    cvars = ["rel17", "clang20"] if not th else ["rel17", "rel20", "clang17", "clang20", "rel23"]
    fb = {v: ctx.pool.submit(vlib.build, ctx, "drv_hash.cpp", v) for v in variants}
    cb = {}
    for v in cvars:
        gen = ctx.path("gen_%s.inc" % v)
        generate(gen, ctx.rng("ct/" + v), 60 if not th else 400)
        cb[v] = ctx.pool.submit(vlib.build, ctx, "drv_hash.cpp", v, ["NZV_CT_BUILD"], "ct", ['-DNZV_GEN="%s"' % gen])
    edges = vlib.model_edges(ctx, "MC_Hash", min_states=100)
    walks, covered, total = vlib.cover_walks(edges, ctx.rng("walk"), max_len=2000)
    ctx.models.append("spec->code: %d of %d distinct transitions" % (covered, total))
    wl = [x for w in walks for x in w]
    futs = []
    for v, fut in fb.items():
        b = fut.result()
        ctx.configs.append(v)
        futs.append((v, ctx.pool.submit(vlib.drive, ctx, b, script(ctx.rng(v), 60, 8 if not th else 100), v)))
        if v in list(fb)[:1] or th:
            ln = [255, 257, 1025, 4097] + ([66000] if th and v in list(fb)[:1] else [])
            r = ctx.rng(v + "long")
            futs.append((v + "_long", ctx.pool.submit(vlib.drive, ctx, b, ["Begin"] + [x for n in ln for x in ("Clear", "Append m=" + ",".join(map(str, text(r, n))), "Hash", "StrHash", "Intern")], v + "_long")))
        futs.append((v + "_bytes", ctx.pool.submit(vlib.drive, ctx, b, singles(), v + "_bytes")))
        futs.append((v + "_walk", ctx.pool.submit(vlib.drive, ctx, b, wl, v + "_walk")))
    for v, fut in cb.items():
        ctx.configs.append("constant_" + v)
        futs.append(("constant_" + v, ctx.pool.submit(vlib.drive, ctx, fut.result(), ["Begin"], "constant_" + v)))
    merged = vlib.merge(ctx, [(t, f.result()) for t, f in futs], 8 if not th else 16)
    vlib.validate(ctx, "Trace_Hash", merged, chunk=1000000)
    ctx.assumptions.append("Character arrays given to the array overloads hold no terminator; std::hash is a given function.")
