"""N02: integer mathematics against spec/IntMath.tla."""
import json

import vlib

TYPES = {"i8": ("Nz::Int8", 8, 1), "u8": ("Nz::UInt8", 8, 0), "i16": ("Nz::Int16", 16, 1), "u16": ("Nz::UInt16", 16, 0),
         "i32": ("Nz::Int32", 32, 1), "u32": ("Nz::UInt32", 32, 0), "i64": ("Nz::Int64", 64, 1), "u64": ("Nz::UInt64", 64, 0),
         "ll": ("long long", 64, 1), "ull": ("unsigned long long", 64, 0)}
FNS = ["Align", "AlignPow2", "Approach", "Clamp", "NearestPow2", "RoundToPow2", "Log2", "Log2Pot", "Pow", "IsPow2", "Mod", "MultiplyAdd",
       "NumberEquals", "SameNumber"]
ARITY = {"NearestPow2": 1, "RoundToPow2": 1, "Log2": 1, "Log2Pot": 1, "IsPow2": 1, "Align": 2, "AlignPow2": 2, "Pow": 2, "Mod": 2, "SameNumber": 2}
CPP = {"Mod": "Mod_"}


def rng_of(w, sg):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)


def pow2(x):
    return x > 0 and x & (x - 1) == 0


def ok(f, w, sg, a, b, c):
    """Is the call in contract (IntMath.InContract)?  Selects calls; judges nothing."""
    lo, hi = rng_of(w, sg)
    if f in ("Align", "AlignPow2"):
        return b > 0 and (f == "Align" or pow2(b)) and -(-a // b) * b <= hi
    if f == "Approach" or f == "NumberEquals":
        return c >= 0
    if f == "Clamp":
        return b <= c
    if f in ("NearestPow2", "RoundToPow2"):
        p = 1
        while p < a:
            p *= 2
        return (f == "NearestPow2" or a > 0) and p <= hi
    if f == "Log2":
        return a >= 0
    if f == "Log2Pot":
        return a == 0 or pow2(a)
    if f == "IsPow2":
        return a != 0
    if f == "Mod":
        return b != 0 and not (b == -1 and a == lo)
    if f == "MultiplyAdd":
        return lo <= a * b <= hi and lo <= a * b + c <= hi
    if f == "Pow":
        if not 0 <= b <= 1000:
            return False
        if abs(a) > 1 and b > 64:
            return False
        return lo <= a ** b <= hi
    return True


def value(rng, w, sg):
    lo, hi = rng_of(w, sg)
    k = rng.randrange(w)
    x = rng.choice([0, 1, 2, 3, -1, -2, lo, lo + 1, hi, hi - 1, 1 << k, (1 << k) - 1, (1 << k) + 1, -(1 << k), rng.randrange(lo, hi + 1),
                    rng.randrange(lo, hi + 1), rng.randrange(-20, 20), rng.randrange(0, 1 << (w // 2)), (1 << (w // 2)) + rng.randrange(-2, 3),
                    rng.randrange(0, 1 << k) if k else 0, (1 << (w // 2)) | rng.getrandbits(w // 2)])
    return min(max(x, lo), hi)


def call(rng, f, w, sg):
    lo, hi = rng_of(w, sg)
    for _ in range(2000):
        a, b, c = (value(rng, w, sg) for _ in range(3))
        if f == "AlignPow2" or f == "Log2Pot" or (f == "IsPow2" and rng.random() < 0.5):
            k = rng.randrange(w - 1 if sg else w)
            if f == "AlignPow2":
                b = 1 << k
            else:
                a = 1 << k if rng.random() < 0.95 else 0
        if f in ("Align", "AlignPow2") and rng.random() < 0.3:
            a = (a // b) * b if b > 0 else a      # already aligned
        if f == "Pow":
            b = rng.randrange(0, 65)
            if rng.random() < 0.7:
                a = rng.choice([0, 1, -1, 2, -2, 3, -3, 5, 7, 10, -10, 15, 255, 256, 65535, -256, 4294967295])
            if rng.random() < 0.5 and abs(a) > 1:
                b = 0
                while abs(a) ** (b + 1) <= hi:
                    b += 1
        if f in ("NumberEquals", "Approach") and rng.random() < 0.5:
            c = min(max(abs(a - b) + rng.choice([-1, 0, 1]), 0), hi)
        if f == "MultiplyAdd" and rng.random() < 0.6:
            a, b = rng.randrange(-300, 300), rng.randrange(-300, 300)
        if f == "SameNumber" and rng.random() < 0.4:
            b = a
        if f == "Mod" and rng.random() < 0.3:
            b = rng.choice([1, -1, 2, -2, hi, lo])
        if ARITY.get(f, 3) < 3:
            c = 0
        if ARITY.get(f, 3) < 2:
            b = 0
        if all(lo <= x <= hi for x in (a, b, c)) and ok(f, w, sg, a, b, c):
            return a, b, c
    return None


def limbs(v):
    v &= (1 << 64) - 1
    return ",".join(str((v >> (16 * n)) & 0xFFFF) for n in range(4))


def line(f, a, b, c):
    return "%s a=%s b=%s c=%s" % (f, limbs(a), limbs(b), limbs(c))


def script(rng, cfg, n):
    _, w, sg = TYPES[cfg]
    out = ["Begin"]
    for k in range(n):
        for f in FNS:
            t = call(rng, f, w, sg)
            if t:
                out.append(line(f, *t))
        if k % 50 == 49:
            out.append("Begin")
    return out


def edges(cfg):
    """Every power of two and its neighbours, for the functions of one number; the largest powers of every small base."""
    _, w, sg = TYPES[cfg]
    lo, hi = rng_of(w, sg)
    out = ["Begin"]
    for f in ("NearestPow2", "RoundToPow2", "Log2", "Log2Pot", "IsPow2"):
        for k in range(w + 1):
            for d in (-1, 0, 1):
                a = (1 << k) + d
                if lo <= a <= hi and ok(f, w, sg, a, 0, 0):
                    out.append(line(f, a, 0, 0))
        out.append("Begin")
    for a in list(range(-16, 17)):
        if not lo <= a <= hi:
            continue
        b = 0
        while b < 66 and lo <= a ** b <= hi:
            b += 1
        for e in (0, 1, 2, b - 2, b - 1):
            if e >= 0 and ok("Pow", w, sg, a, e, 0):
                out.append(line("Pow", a, e, 0))
    out.append("Begin")
    for k in range(w - 1 if sg else w):
        for a in (0, 1, (1 << k) - 1, 1 << k, (1 << k) + 1, hi - (1 << k), hi - (1 << k) + 1):
            for f in ("Align", "AlignPow2"):
                if lo <= a <= hi and ok(f, w, sg, a, 1 << k, 0):
                    out.append(line(f, a, 1 << k, 0))
    return out


def rows(rng, cfg, fraction):
    """8-bit types: all first arguments for (a sample of) all second and third ones."""
    _, w, sg = TYPES[cfg]
    lo, hi = rng_of(w, sg)
    out = ["Begin"]
    n = 0
    for f in FNS:
        ar = ARITY.get(f, 3)
        bs = [0] if ar == 1 else list(range(lo, hi + 1))
        if ar == 3 and fraction < 0.1:
            bs = sorted(set(rng.sample(bs, 24) + [lo, hi, 0, 1]))
        for b in bs:
            cs = [0] if ar < 3 else rng.sample(range(lo, hi + 1), max(1, int(256 * fraction)))
            for c in cs:
                a = [x for x in range(lo, hi + 1) if ok(f, w, sg, x, b, c)]
                if a:
                    out.append("Row_%s b=%d c=%d a=%s" % (f, b, c, ",".join(map(str, a))))
                    n += 1
                    if n % 64 == 0:
                        out.append("Begin")
    return out


def generate(path, rng, n):
    with open(path, "w") as f:
        for cfg, (t, w, sg) in TYPES.items():
            f.write("NZV_TYPE(%s)\n" % t)
            for fn in FNS:
                for _ in range(n):
                    c = call(rng, fn, w, sg)
                    if c:
                        f.write("NZV_CT(%s, %s, %s)\n" % (t, CPP.get(fn, fn), ", ".join("0x%xull" % (x & ((1 << 64) - 1)) for x in c)))


def check(ctx):
    th = ctx.thorough
    variants = ["san17", "rel20"] if not th else ["san17", "rel20", "clang20", "rel17", "clang17", "san20", "rel23"]
    cvars = ["rel17", "clang20"] if not th else ["rel17", "rel20", "clang17", "clang20", "rel23"]
    fb = {v: ctx.pool.submit(vlib.build, ctx, "drv_int.cpp", v) for v in variants}
    cb = {}
    parts = 1 if not th else 6
    for v in cvars:
        for part in range(parts):
            gen = ctx.path("gen_%s_%d.inc" % (v, part))
            generate(gen, ctx.rng("ct/%s/%d" % (v, part)), 6 if not th else 20)
            cb[(v, part)] = ctx.pool.submit(vlib.build, ctx, "drv_int.cpp", v, ["NZV_CT_BUILD"], "ct%d" % part, ['-DNZV_GEN="%s"' % gen])
    replay = {}
    for sg, model in ((1, "MC_IntMath_s"), (0, "MC_IntMath_u")):
        r = vlib.model_check(ctx, "MC_IntMath", model, workers=1, min_states=1000)
        calls = [json.loads(json.loads(x)[3:]) for x in r.out.splitlines() if x.startswith('"@T ')]
        if len(calls) < 1000:
            raise vlib.CheckError("no calls emitted")
        ctx.models.append("spec->code: all %d calls of the 4-bit type replayed" % len(calls))
        replay[sg] = ["Begin"] + [line(c["f"], c["a"], c["b"], c["c"]) for c in calls]
    fm = ctx.pool.submit(vlib.model_check, ctx, "MC_IntMath", "MC_IntMath_s5", 2)
    fbig = ctx.pool.submit(vlib.tlc, ctx, "MC_Big")
    futs = []
    for v, fut in fb.items():
        b = fut.result()
        for cfg, (_, w, sg) in TYPES.items():
            tag = "%s_%s" % (v, cfg)
            ctx.configs.append(tag)
            rng = ctx.rng(tag)
            futs.append((tag, ctx.pool.submit(vlib.drive, ctx, b, script(rng, cfg, 60 if not th else 1000), tag, cfg)))
            futs.append((tag + "_edges", ctx.pool.submit(vlib.drive, ctx, b, edges(cfg), tag + "_edges", cfg)))
            if w == 8 and v == "san17":
                t2 = tag + "_rows"
                futs.append((t2, ctx.pool.submit(vlib.drive, ctx, b, rows(rng, cfg, 0.012 if not th else 0.12), t2, cfg)))
            if v == "san17" and (cfg in ("i8", "u8", "i64", "u64") or th):
                t2 = tag + "_model"
                futs.append((t2, ctx.pool.submit(vlib.drive, ctx, b, replay[sg], t2, cfg)))
    for (v, part), fut in cb.items():
        tag = "constant%d_%s" % (part, v)
        ctx.configs.append(tag)
        futs.append((tag, ctx.pool.submit(vlib.drive, ctx, fut.result(), ["Begin"], tag, "")))
    merged = vlib.merge(ctx, [(t, f.result()) for t, f in futs], 8 if not th else 24)
    fm.result()
    if "No error has been found" not in fbig.result().out:
        raise vlib.CheckError("MC_Big failed: " + fbig.result().out[-2000:])
    vlib.validate(ctx, "Trace_IntMath", merged, chunk=1000000)
    ctx.assumptions.append("Contract: positive alignments, non-negative steps and tolerances, ordered bounds, representable results (and products), "
                           "arguments for which the logarithm exists; the lowest value modulo -1 is excluded.")
