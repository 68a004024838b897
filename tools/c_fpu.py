"""X01: floating-point helpers against spec/Fpu.tla."""
import json
import math
import struct

import vlib
from c_cast import big, fbits, limbs

FNS = ["IsFinite", "IsInfinity", "IsNaN", "Mod", "Clamp", "Approach", "MultiplyAdd", "NumberEquals", "NumberEqualsDefault", "Lerp", "LerpOther", "LerpInt", "LerpLong",
       "DegreeToRadian", "RadianToDegree"]
ARGS = [1, 1, 1, 2, 3, 3, 3, 3, 2, 3, 3, 3, 3, 1, 1]


def f32(x):
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return math.copysign(3.4028234663852886e38, x)


def from_bits(b, w):
    return struct.unpack("<f" if w == 32 else "<d", struct.pack("<I" if w == 32 else "<Q", b))[0]


def value(rng, w, finite=False):
    """The bits of a number: special, simple, an integer, of any magnitude, or any bits."""
    r = rng.random()
    top = 3.4028234663852886e38 if w == 32 else 1.7976931348623157e308
    tiny = 1.401298464324817e-45 if w == 32 else 5e-324
    norm = 1.1754943508222875e-38 if w == 32 else 2.2250738585072014e-308
    if r < 0.12:
        x = rng.choice([0.0, -0.0, 1.0, -1.0, 0.1, 0.3, top, -top, tiny, -tiny, norm, 0.5, 180.0, 360.0, 3.0, 7.0, 1e17, 1e-9, 9.3e18, 1e10])
    elif r < 0.2 and not finite:
        x = rng.choice([math.inf, -math.inf, math.nan])
    elif r < 0.45:
        x = rng.randrange(-1000, 1001) / rng.choice([1, 1, 10, 8, 3])
    elif r < 0.55:
        x = float(rng.randrange(-(1 << 62), 1 << 62) >> rng.randrange(60))
    elif r < 0.65:
        x = math.ldexp(rng.random() + 0.5, rng.randrange(-30, 31)) * rng.choice([1, -1])
    else:
        b = rng.getrandbits(w)
        x = from_bits(b, w)
        if finite and not math.isfinite(x):
            x = 2.0
        elif not math.isfinite(x) or w == 64:
            return fbits(x, w) if math.isfinite(x) or not math.isnan(x) else b
    if w == 32:
        x = f32(x) if math.isfinite(x) else x
    return fbits(x, w)


def near(rng, b, w):
    """A neighbour."""
    return max(0, min((1 << w) - 1, b + rng.choice([-2, -1, 0, 1, 2])))


def operands(rng, w, finite=False):
    a = value(rng, w, finite)
    r = rng.random()
    b = value(rng, w, finite) if r < 0.6 else near(rng, a, w) if r < 0.75 else a if r < 0.85 else a ^ (1 << (w - 1))
    c = value(rng, w, finite) if rng.random() < 0.5 else fbits(rng.choice([0.0, 1.0, 0.5, 0.25, -1.0, 2.0]), w) if rng.random() < 0.6 else near(rng, b, w)
    fa, fb = from_bits(a, w), from_bits(b, w)
    if rng.random() < 0.3 and math.isfinite(fa) and math.isfinite(fb) and math.isfinite(fa - fb):
        c = near(rng, fbits(abs(fa - fb) if w == 64 else f32(abs(fa - fb)), w), w)            # the very difference
    if finite:
        for v in (b, c):
            if not math.isfinite(from_bits(v, w)):
                return operands(rng, w, True)
    return a, b, c


def line(rng, fn, w):
    a, b, c = operands(rng, w)
    return "F fn=%d w=%d a=%s b=%s c=%s" % (fn, w, limbs(a), limbs(b), limbs(c))


def script(rng, n):
    return ["Begin"] + [line(rng, k % len(FNS) if k % 2 else rng.randrange(len(FNS)), 32 if rng.random() < 0.5 else 64) for k in range(n)]


def literal(b, w):
    x = from_bits(b, w)
    t = "F32" if w == 32 else "F64"
    if math.isnan(x):
        return "NZV_NAN(%s)" % t
    if math.isinf(x):
        return "%sNZV_INF(%s)" % ("-" if x < 0 else "", t)
    return x.hex() + ("f" if w == 32 else "")


def generate(path, rng, n, gcc):
    """Calls to try in constant evaluation; results that overflow or are NaN are not constant expressions everywhere."""
    with open(path, "w") as f:
        k = 0
        while k < n:
            w = rng.choice([32, 64])
            fn = rng.choice([3, 3, 3, k % len(FNS)])
            name = FNS[fn]
            a, b, c = operands(rng, w, finite=fn > 2)
            x, y, z = (from_bits(v, w) for v in (a, b, c))
            top = 3e38 if w == 32 else 1.7e308
            if name == "MultiplyAdd" and not gcc:
                continue
            if name == "Mod":
                if rng.random() < 0.05:
                    b = fbits(math.inf, w)
                elif y == 0:
                    continue
            elif name == "Clamp" and not y <= z:
                continue
            elif name == "Approach" and not z >= 0:
                continue
            elif fn > 2 and not all(abs(v) < (1e9 if w == 32 else 1e30) for v in (x, y, z)):
                continue
            if name in ("LerpInt", "LerpLong") and not (abs(x) < 1e8 and abs(y) < 1e8 and abs(z) <= 2):
                continue
            if name == "Approach" and max(abs(x), abs(y), abs(z)) > top / 4:
                continue
            f.write("NZV_CT(%d, F%s, F%d, %s, %s, %s)\n" % (k, name.replace("NumberEqualsDefault", "EqualsDefault").replace("NumberEquals", "Equals").replace("DegreeToRadian", "ToRadian")
                                                           .replace("RadianToDegree", "ToDegree"), w, literal(a, w), literal(b, w), literal(c, w)))
            k += 1


def bits(v, w):
    if v["c"]:
        return fbits({1: math.inf, 2: -math.inf, 3: math.nan}[v["c"]], w)
    m, e = big(v["m"]), v["e"]
    return fbits(float(m) * 2.0 ** e if m else 0.0, w)


def check(ctx):
    th = ctx.thorough
    variants = ["san17", "rel20"] if not th else ["san17", "rel20", "clang20", "rel17", "clang17", "san20", "rel23"]
    fb = {v: ctx.pool.submit(vlib.build, ctx, "drv_fpu.cpp", v) for v in variants}
    cb = {}
    for v in (["rel20"] if not th else ["san17", "san20", "clang20", "rel17"]):
        gen = ctx.path("gen_fpu_%s.inc" % v)
        generate(gen, ctx.rng("ct/" + v), 150 if not th else 600, "clang" not in v)
        cb[v] = ctx.pool.submit(vlib.build, ctx, "drv_fpu.cpp", v, ["NZV_CT_BUILD"], "ct", ['-DNZV_GEN="%s"' % gen])
    small = ctx.pool.submit(vlib.model_check, ctx, "MC_Fpu", "MC_Fpu_small", 3)
    r = vlib.model_check(ctx, "MC_Fpu", "MC_Fpu_float", workers=1, min_states=500)
    acts = {x: json.loads(json.loads(x)[3:]) for x in r.out.splitlines() if x.startswith('"@T ')}
    replay = ["Begin"]
    for a in acts.values():
        if a["op"] == "Begin":
            continue
        fn = FNS.index({"Equals": "NumberEquals"}.get(a["op"], a["op"]))
        args = a["a"] + [{"c": 0, "m": [0], "e": 0}] * (3 - len(a["a"]))
        for w in (32, 64):
            replay.append("F fn=%d w=%d a=%s b=%s c=%s" % ((fn, w) + tuple(limbs(bits(x, w)) for x in args)))
    ctx.models.append("spec->code: %d calls of the model replayed in float and double" % (len(replay) - 1))
    futs = []
    for k, v in enumerate(variants):
        b = fb[v].result()
        for tag, ls in [("random", script(ctx.rng("r/" + v), 2500 if not th else 30000))] + ([("model", replay)] if k == 0 or th else []):
            ctx.configs.append("%s_%s" % (v, tag))
            futs.append(("%s_%s" % (v, tag), ctx.pool.submit(vlib.drive, ctx, b, ls, "%s_%s" % (v, tag))))
    for v, f in cb.items():
        ctx.configs.append("constant_" + v)
        futs.append(("constant_" + v, ctx.pool.submit(vlib.drive, ctx, f.result(), ["Begin"], "constant_" + v)))
    merged = vlib.merge(ctx, [(t, f.result()) for t, f in futs], 8 if not th else 24)
    small.result()
    vlib.validate(ctx, "Trace_Fpu", merged, chunk=1000000)
    ctx.assumptions.append("Default rounding mode, no -ffast-math; the sign of a zero result is not constrained; sums and products may be contracted to fused operations.")
