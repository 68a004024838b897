"""B01-B04: Nz::Bitset against spec/Bitset.tla."""
import vlib

B01 = "Fill Resize Clear Reserve Flip Reverse SetAll Set1 USet SetBlock Shl Shr ShlOf ShrOf NotOf And Or Xor Not Copy Move Swap Bit".split()
OWN = {"B01": set(B01), "B02": {"Observe", "Intersects"}, "B03": {"Compare"},
       "B04": {"Str", "Append", "Write", "FromPtr", "FromInt", "ToInt", "ToStr"}}
CFGS = {"u8v": 8, "u16v": 16, "u32v": 32, "u64v": 64, "u8f": 8, "u16f": 16, "u32f": 32, "u64f": 64,
        "u8h": 8, "u16h": 16, "u32h": 32, "u64h": 64}
CAP = {"u8v": 150, "u16v": 150, "u32v": 150, "u64v": 200, "u8f": 128, "u16f": 100, "u32f": 72, "u64f": 128,
       "u8h": 130, "u16h": 130, "u32h": 150, "u64h": 180}
# sizes around the limits of the narrow integer types: bits and blocks
LARGE = {"u8L": (0, 8, 2100), "u64L": (1, 64, 66000), "u8F": (2, 8, 2100), "u8X": (0, 8, 525000)}
GROUPS = [["u8v", "u16v"], ["u32v", "u64v"], ["u8f", "u16f"], ["u32f", "u64f"], ["u8h", "u16h"], ["u32h", "u64h"]]


class Gen:
    def __init__(self, rng, cfg):
        self.r = rng
        self.w = CFGS[cfg]
        self.cap = CAP[cfg]

    def size(self):
        r, w = self.r, self.w
        k = r.random()
        if k < 0.55:
            m = r.randint(0, max(1, self.cap // w))
            return max(0, min(self.cap, m * w + r.choice([-1, 0, 0, 1, 2, -2])))
        if k < 0.7:
            return r.randint(0, 4)
        return r.randint(0, self.cap)

    def pattern(self, n=None):
        r = self.r
        n = self.size() if n is None else n
        k = r.random()
        if k < 0.15:
            b = [1] * n
        elif k < 0.25:
            b = [0] * n
        elif k < 0.45:
            b = [0] * n
            for _ in range(r.randint(1, 2)):
                if n:
                    b[r.choice([0, n - 1, r.randrange(n), min(n - 1, self.w), min(n - 1, self.w - 1)])] = 1
        elif k < 0.55:
            b = [1] * n
            if n:
                b[r.choice([0, n - 1, r.randrange(n)])] = 0
        else:
            b = [r.randint(0, 1) for _ in range(n)]
        return ",".join(map(str, b))

    def word(self):
        r = self.r
        k = r.random()
        if k < 0.2:
            v = (1 << 64) - 1
        elif k < 0.35:
            v = 1 << r.randrange(64)
        elif k < 0.45:
            v = (1 << r.randrange(65)) - 1
        elif k < 0.5:
            v = 0
        else:
            v = r.getrandbits(64)
        return ",".join(str((v >> (16 * i)) & 0xFFFF) for i in range(4))

    def idx(self):
        r = self.r
        return r.choice([0, self.w - 1, self.w, self.w + 1, 2 * self.w - 1, r.randrange(self.cap), r.randrange(self.cap), self.cap - 1])

    def mut(self, name=None):
        r = self.r
        n = name or r.choice(B01)
        return "%s o=%d p=%d q=%d n=%d v=%d i=%d j=%d how=%d w=%s" % (
            n, r.randrange(3), r.randrange(3), r.randrange(3), self.shift() if n.startswith("Sh") else self.size(), r.randint(0, 1),
            self.idx(), self.idx(), r.randrange(36), self.word())

    def shift(self):
        r = self.r
        return r.choice([0, 1, self.w - 1, self.w, self.w + 1, 2 * self.w, r.randrange(self.cap), r.randrange(2 * self.w), self.cap + 5])

    def strs(self, o=None):
        return "Str o=%d how=%d b=%s" % (self.r.randrange(3) if o is None else o, self.r.randrange(5), self.pattern())

    def count(self):
        r, w = self.r, self.w
        return r.choice([0, 1, 7, 8, 9, w - 1, w, w + 1, 2 * w, r.randint(0, 20), r.randint(0, 70), r.randint(0, 16)])

    def io(self):
        r = self.r
        n = r.choice(["Append"] * 5 + ["Write"] * 5 + ["FromPtr"] * 2 + ["FromInt"] * 2 + ["ToInt", "ToStr", "Str"])
        if n == "Str":
            return self.strs()
        by = ",".join(str(r.choice([255, 0, r.randrange(256), r.randrange(256)])) for _ in range(r.randint(1, 20)))
        return "%s o=%d n=%d t=%d off=%d how=%d w=%s bytes=%s" % (n, r.randrange(3), self.count(), r.randrange(4), r.randrange(8),
                                                                r.randrange(2), self.word(), by)

    def related(self):
        """two bitsets that differ in few bits or only in leading zeros"""
        r = self.r
        n = self.size()
        b = [r.randint(0, 1) for _ in range(n)]
        c = list(b)
        k = r.random()
        if k < 0.6:
            for _ in range(r.randint(1, 2)):
                if c:
                    c[r.choice([0, len(c) - 1, r.randrange(len(c))])] ^= 1
        k = r.random()
        if k < 0.5:
            c = c + [0] * r.choice([1, self.w, 2 * self.w + 1])
        elif k < 0.7:
            c = c + [0] * r.choice([0, self.w]) + [1] + [0] * r.choice([0, 3, self.w])
        c = c[:self.cap]
        out = ["Str o=0 b=%s" % ",".join(map(str, b)), "Str o=1 b=%s" % ",".join(map(str, c))]
        return out


def scripts(prop, rng, cfg, nscen, length):
    g = Gen(rng, cfg)
    r = g.r
    lines = []
    for _ in range(nscen):
        lines.append("Begin")
        if prop == "B01":
            lines += [g.strs(0), g.strs(1), g.strs(2)]
            for _ in range(length):
                if r.random() < 0.06:
                    lines.append(g.strs())
                lines.append(g.mut())
        elif prop == "B02":
            lines += [g.strs(0), g.strs(1)]
            for _ in range(length // 3):
                k = r.random()
                if k < 0.35:
                    lines.append(g.strs())
                elif k < 0.85:
                    lines.append(g.mut())
                else:
                    lines.append(g.io())
                o = r.randrange(3)
                lines.append("Observe o=%d" % o)
                lines.append("Intersects o=%d p=%d" % (r.randrange(3), r.randrange(3)))
        elif prop == "B03":
            for _ in range(length // 4):
                if r.random() < 0.6:
                    lines += g.related()
                    o, p = (0, 1) if r.random() < 0.5 else (1, 0)
                else:
                    lines.append(g.strs())
                    if r.random() < 0.4:
                        lines.append(g.mut())
                    o, p = r.randrange(3), r.randrange(3)
                lines.append("Compare o=%d p=%d" % (o, p))
                lines.append("Compare o=%d p=%d" % (p, o))
        else:
            for _ in range(length):
                if r.random() < 0.15:
                    lines.append(r.choice(["Clear o=%d" % r.randrange(3), g.mut("Resize"), g.mut("Fill"), g.mut("Flip")]))
                lines.append(g.io())
    return lines


def large(prop, rng, w, cap, nscen):
    """few calls on very long bitsets"""
    r = rng
    spots = [i for i in (0, 1, 254, 255, 256, 257, 511, 512, 2039, 2047, 2048, 2049, 32767, 32768, 65534, 65535, 65536, 65537, 524287, 524288) if i < cap] + [cap - 1, cap - 2]
    lines = []

    def pos():
        return r.choice(spots) if r.random() < 0.8 else r.randrange(cap)

    def size():
        return r.choice([n for n in (256, 257, 2048, 2049, 65536, 65537, 524288, 524289, cap, cap - 1, cap - 9) if cap // 3 < n <= cap])

    def shift():
        return r.choice([1, w - 1, w, w + 1, 255, 256, 257, 5 * w, 65535, 65536, cap // 2])

    def mut(o):
        n = r.choice(["Resize", "Set1", "Set1", "USet", "USet", "SetBlock", "SetBlock", "Shl", "Shr", "ShlOf", "ShrOf", "NotOf", "And", "Or", "Xor", "Flip", "Reverse", "Copy", "Swap", "Bit"])
        return "%s o=%d p=%d q=%d n=%d v=%d i=%d j=%d how=%d w=%d,%d,%d,%d" % (
            n, o, r.randrange(3), r.randrange(3), shift() if n.startswith("Sh") else size(), r.choice([1, 1, 0]), pos(), pos(), r.randrange(36),
            r.getrandbits(16), r.getrandbits(16), r.getrandbits(16), r.getrandbits(16))
    for _ in range(nscen):
        lines.append("Begin")
        for o in range(3):
            lines.append("Fill o=%d n=%d v=%d" % (o, size(), r.choice([0, 0, 0, 1])))
            lines += ["Set1 o=%d i=%d v=1 how=1" % (o, pos()) for _ in range(2)]
        if prop == "B01":
            lines += [mut(r.randrange(3)) for _ in range(20 if cap < 100000 else 6)]
        elif prop == "B02":
            lines += [x for o in range(3) for x in ("Observe o=%d" % o, "Intersects o=%d p=%d" % (o, (o + 1) % 3))]
            lines += ["SetAll o=0 v=0 how=0", "Observe o=0", "Set1 o=0 i=%d v=1 how=1" % pos(), "Observe o=0", "SetAll o=1 v=1", "Intersects o=0 p=1"]
        elif prop == "B03":
            for _ in range(4):
                lines += ["Copy o=0 p=1 how=0", "Compare o=0 p=1", "USet o=0 i=%d v=%d how=0" % (pos(), r.randint(0, 1)), "Compare o=0 p=1", "Compare o=1 p=0",
                          "Bit o=1 i=%d j=0 v=1 how=1" % pos(), "Compare o=0 p=1", "Compare o=1 p=2"]
        else:
            for _ in range(3):
                o = r.randrange(3)
                wd = "w=%d,%d,%d,%d" % tuple(r.getrandbits(16) for _ in range(4))
                lines += ["ToStr o=%d" % o, "Resize o=%d n=%d v=0 how=1" % (o, r.choice([cap // 3, cap - 70, cap - 128])),
                          "Append o=%d n=%d t=3 %s" % (o, r.choice([1, 63, 64]), wd),
                          "Write o=%d n=%d off=%d how=0" % (o, r.choice([3, cap, 300, cap // 2]), r.randrange(8)),
                          "FromPtr o=%d n=%d how=%d" % (o, size(), r.randrange(2))]
    return lines


def check(ctx):
    prop = ctx.prop
    jobs = []
    variants = ["san17", "rel20"] if not ctx.thorough else ["san17", "rel20", "clang20", "rel17"]
    for v in variants:
        for g in range(len(GROUPS)):
            jobs.append(((v, g), dict(src="drv_bitset.cpp", variant=v, defs=("GROUP=%d" % g,))))
    fb = {k: ctx.pool.submit(vlib.build, ctx, **kw) for k, kw in jobs}
    edges = vlib.model_edges(ctx, "MC_Bitset", "MC_Bitset_" + prop, min_states=100)
    walks, covered, total = vlib.cover_walks(edges, ctx.rng("walk"), max_len=400)
    ctx.models.append("spec->code: %d of %d distinct transitions in %d scripts" % (covered, total, len(walks)))
    bins = {k: f.result() for k, f in fb.items()}
    cover = [x for w in walks for x in w]
    traces = []
    nscen, length = (3, 120) if not ctx.thorough else (40, 250)
    if prop in ("B02",):
        nscen *= 1
    futs = []
    for v in variants:
        for gi, g in enumerate(GROUPS):
            for cfg in g:
                tag = "%s_%s" % (v, cfg)
                ctx.configs.append(tag)
                lines = scripts(prop, ctx.rng(tag), cfg, nscen, length)
                # every transition of the bounded model, on one configuration per storage and block width family
                if (v, cfg) in (("san17", "u8v"),) or (ctx.thorough and v == "san17"):
                    lines = cover + lines
                futs.append((tag, ctx.pool.submit(vlib.drive, ctx, bins[(v, gi)], lines, tag, cfg)))
    for cfg, (g, w, cap) in LARGE.items():
        if cap > 100000 and not ctx.thorough:
            continue
        for v in variants[:1] if not ctx.thorough or cap > 100000 else variants[:3]:
            tag = "%s_%s" % (v, cfg)
            ctx.configs.append(tag)
            lines = large(prop, ctx.rng(tag), w, cap, (2 if cap < 5000 else 1) * (4 if ctx.thorough and cap < 100000 else 1))
            futs.append((tag, ctx.pool.submit(vlib.drive, ctx, bins[(v, g)], lines, tag, cfg)))
    for tag, f in futs:
        traces.append((tag, f.result()))
    vlib.validate(ctx, "Trace_Bitset", traces, own=lambda op: op in OWN[prop], chunk=6000)
