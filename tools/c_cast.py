"""C01: checked casts against spec/Cast.tla."""
import json
import struct

import vlib

# driver's types, in its order: name, kind, width, signed
TYPES = [("i8", "int", 8, 1), ("u8", "int", 8, 0), ("i16", "int", 16, 1), ("u16", "int", 16, 0), ("i32", "int", 32, 1), ("u32", "int", 32, 0),
         ("i64", "int", 64, 1), ("u64", "int", 64, 0), ("ll", "int", 64, 1), ("ull", "int", 64, 0), ("bool", "int", 1, 0), ("char", "int", 8, 1),
         ("E8", "int", 8, 1), ("EU8", "int", 8, 0), ("E16", "int", 16, 1), ("EU32", "int", 32, 0), ("E64", "int", 64, 1), ("EU64", "int", 64, 0),
         ("float", "flt", 32, 1), ("double", "flt", 64, 1)]
HOWS = 6


def range_of(w, sg):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)


def limbs(v):
    v &= (1 << 64) - 1
    return ",".join(str((v >> (16 * n)) & 0xFFFF) for n in range(4))


def fbits(x, w):
    return struct.unpack("<I" if w == 32 else "<Q", struct.pack("<f" if w == 32 else "<d", x))[0]


def big(d):
    v = 0
    for x in reversed(d[1:]):
        v = v * 4096 + x
    return v * d[0]


def index(t, rng):
    """One of the driver's types that have this type of the specification."""
    c = [i for i, (_, k, w, sg) in enumerate(TYPES) if k == t["k"] and w == t["w"] and (k == "flt" or sg == int(t["sg"]))]
    return rng.choice(c)


def bits_of(v, t):
    if t["k"] == "int":
        return big(v["m"])
    if v["c"]:
        return fbits({1: float("inf"), 2: float("-inf"), 3: float("nan")}[v["c"]], t["w"])
    m, e = big(v["m"]), v["e"]
    while m % 2 == 0 and m:
        m, e = m // 2, e + 1
    return fbits(float(m) * 2.0 ** e if e > -1070 else float(m) * 2.0 ** -60 * 2.0 ** (e + 60), t["w"])


def int_value(rng, w, sg):
    lo, hi = range_of(w, sg)
    k = rng.randrange(64)
    e = rng.choice(TYPES[:11])
    elo, ehi = range_of(e[2], e[3])
    x = rng.choice([lo, hi, elo + rng.randrange(-2, 3), ehi + rng.randrange(-2, 3), rng.randrange(-3, 4), 1 << k, (1 << k) - 1, -(1 << k),
                    rng.randrange(lo, hi + 1), rng.randrange(elo, ehi + 1)])
    return min(max(x, lo), hi)


def float_bits(rng, w):
    r = rng.random()
    if r < 0.1:
        return rng.getrandbits(w)
    if r < 0.2:
        return fbits(rng.choice([0.0, -0.0, 0.5, -0.5, float("inf"), float("-inf"), float("nan"), 3.4028234663852886e38, -3.4028234663852886e38, 1e-45, 1.0, 255.5, -128.5]), w)
    e = rng.choice(TYPES[:11])
    lo, hi = range_of(e[2], e[3])
    x = float(rng.choice([lo, hi, hi + 1, lo - 1, rng.randrange(lo, hi + 1), rng.randrange(-300, 300)]))
    if r < 0.4:
        x = x + rng.choice([0.5, -0.5, 0.25])
    b = fbits(x, w)
    if r > 0.7 and x != 0:
        b += rng.choice([-1, 1])           # its neighbours
    return b & ((1 << w) - 1)


def cast_line(rng, f=None, t=None):
    f = rng.randrange(len(TYPES)) if f is None else f
    t = rng.randrange(len(TYPES)) if t is None else t
    _, k, w, sg = TYPES[f]
    v = float_bits(rng, w) if k == "flt" else int_value(rng, w, sg)
    return "Cast f=%d t=%d how=%d v=%s" % (f, t, rng.randrange(HOWS), limbs(v))


def script(rng, n):
    out = ["Begin"]
    for k in range(n):
        out.append(cast_line(rng))
        if k % 4 == 0:
            out.append("Class dyn=%d f=%d t=%d how=%d null=%d" % (rng.randrange(6), rng.randrange(6), rng.randrange(6), rng.randrange(6), rng.random() < 0.1))
        if k % 8 == 0:
            out.append("%s t=%d v=%s" % (rng.choice(["PtrToInt", "IntToPtr"]), rng.randrange(6), limbs(rng.choice([int_value(rng, 64, 0), int_value(rng, 64, 1), 0]))))
    return out


def all_casts(rng):
    """Every pair of types and every form at least once, every class cast in every form."""
    out = ["Begin"]
    for f in range(len(TYPES)):
        for t in range(len(TYPES)):
            for how in range(HOWS):
                l = cast_line(rng, f, t)
                out.append(l[:l.index("how=")] + "how=%d " % how + l[l.index("v="):])
    for d in range(6):
        for f in range(6):
            for t in range(6):
                for how in range(6):
                    out.append("Class dyn=%d f=%d t=%d how=%d null=0" % (d, f, t, how))
                out.append("Class dyn=%d f=%d t=%d how=%d null=1" % (d, f, t, rng.randrange(3)))
    return out


def generate(path, rng, n):
    cpp = ["Nz::Int8", "Nz::UInt8", "Nz::Int16", "Nz::UInt16", "Nz::Int32", "Nz::UInt32", "Nz::Int64", "Nz::UInt64", "long long", "unsigned long long"]
    with open(path, "w") as f:
        for k in range(n):
            a = rng.randrange(len(cpp))
            t = rng.randrange(18)
            _, _, w, sg = TYPES[a]
            v = int_value(rng, w, sg)
            f.write("NZV_CT(%d, %d, %d, static_cast<%s>(0x%xull))\n" % (k, a, t, cpp[a], v & ((1 << 64) - 1)))


def check(ctx):
    th = ctx.thorough
    variants = ["san17", "rel20"] if not th else ["san17", "rel20", "clang20", "rel17", "clang17", "san20", "rel23"]
    fb = {v: ctx.pool.submit(vlib.build, ctx, "drv_cast.cpp", v) for v in variants}
    cb = {}
    for v in (["san20"] if not th else ["san17", "san20", "clang20", "rel17"]):
        gen = ctx.path("gen_cast_%s.inc" % v)
        generate(gen, ctx.rng("ct/" + v), 150 if not th else 600)
        cb[v] = ctx.pool.submit(vlib.build, ctx, "drv_cast.cpp", v, ["NZV_CT_BUILD"], "ct", ['-DNZV_GEN="%s"' % gen])
    fl = ctx.pool.submit(vlib.model_check, ctx, "MC_Float", "MC_Float", 1)
    edges = {}
    for model in ("MC_Cast", "MC_Cast_flt"):
        r = vlib.model_check(ctx, "MC_Cast", model, workers=1, min_states=500, args=())
        edges[model] = [json.loads(json.loads(x)[3:]) for x in r.out.splitlines() if x.startswith('"@T ')]
    rng = ctx.rng("model")
    # every cast of the model, replayed in every form
    seen = {}
    for model, es in edges.items():
        for e in es:
            k = json.dumps([e["from"], e["to"]], sort_keys=True)
            if e["out"] == "value" or k not in seen:
                seen[k] = e
    targets = [{"k": "int", "w": w, "sg": s} for w in (8, 16, 32, 64) for s in (True, False)] + [{"k": "int", "w": 1, "sg": False}, {"k": "flt", "w": 32}, {"k": "flt", "w": 64}]
    sources = {json.dumps(e["from"], sort_keys=True): e["from"] for e in seen.values()}
    replay = ["Begin"]
    for s in sources.values():
        for t in targets:
            for how in ([rng.randrange(HOWS)] if not th else range(HOWS)):
                replay.append("Cast f=%d t=%d how=%d v=%s" % (index(s["t"], rng), index(t, rng), how, limbs(bits_of(s["v"], s["t"]))))
    if len(replay) < 500:
        raise vlib.CheckError("the model yields only %d casts to replay" % len(replay))
    ctx.models.append("spec->code: the %d values of the model cast to the %d types (%d casts)" % (len(sources), len(targets), len(replay) - 1))
    futs = []
    for v in variants:
        b = fb[v].result()
        for tag, lines in [("random", script(ctx.rng("s/" + v), 1500 if not th else 30000)), ("all", all_casts(ctx.rng("a/" + v)))] + ([("model", replay)] if v in variants[:1] or th else []):
            ctx.configs.append("%s_%s" % (v, tag))
            futs.append(("%s_%s" % (v, tag), ctx.pool.submit(vlib.drive, ctx, b, lines, "%s_%s" % (v, tag))))
    for v, f in cb.items():
        ctx.configs.append("constant_" + v)
        futs.append(("constant_" + v, ctx.pool.submit(vlib.drive, ctx, f.result(), ["Begin"], "constant_" + v)))
    merged = vlib.merge(ctx, [(t, f.result()) for t, f in futs], 8 if not th else 24)
    fl.result()
    vlib.validate(ctx, "Trace_Cast", merged, chunk=1000000)
    ctx.assumptions.append("Assertions are those of debug builds; in the others only casts whose value is representable are constrained.")
