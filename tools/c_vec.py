"""V01-V04: sequence containers against spec/Vec.tla and spec/Life.tla."""
import vlib

GROUPS = {"f4": 0, "f1": 0, "f6a": 0, "f5m": 0, "f5n": 0, "f5t": 0, "f7i": 0,
          "h1": 1, "h2": 1, "h5": 1, "h3m": 1,
          "h3n": 2, "h3t": 2, "h3a": 2, "h4i": 2,
          "f256": 0, "f64k": 0, "h256": 1, "h64k": 1, "s256": 3, "s64k": 3, "a256": 3, "a64k": 3,
          "s5": 3, "s5m": 3, "s5t": 3, "s7i": 3, "a5": 3, "a5m": 3, "a5t": 3}
PROPCFG = {
    "V01": ["f4", "f1", "f6a", "f5m", "f5n", "f7i", "h1", "h2", "h5", "h3m", "h3n", "h3a", "h4i"],
    "V02": ["s5", "s5m", "s7i", "a5", "a5m"],
    "V03": ["f4", "f1", "f6a", "f5m", "f5n", "h1", "h2", "h5", "h3m", "h3n", "h3t", "s5", "s5m", "s5t", "a5", "a5m"],
    "V04": ["f5t", "h3t", "s5t", "a5t"],
}
# sizes around the limits of the narrow integer types: configuration -> inline or given capacity
LARGE = {"V01": {"f256": 256, "h256": 256, "f64k": 65536, "h64k": 65536},
         "V02": {"s256": 256, "a256": 256, "s64k": 65536, "a64k": 65536},
         "V03": {"f256": 256, "h256": 256, "s256": 256, "a256": 256},
         "V04": {}}
WALK = {"V01": [("hybrid", "h2"), ("fixed", "f4")],
        "V02": [("stack", "s5"), ("array", "a5")],
        "V03": [("hybrid", "h2"), ("fixed", "f4"), ("stack", "s5"), ("array", "a5")],
        "V04": [("hybrid", "h3t"), ("fixed", "f5t"), ("stack", "s5t"), ("array", "a5t")]}
SMALL = {"f4": 4, "f1": 1, "f6a": 6, "f5m": 5, "f5n": 5, "f5t": 5, "f7i": 7, "h1": 1, "h2": 2, "h5": 5, "h3m": 3,
         "h3n": 3, "h3t": 3, "h3a": 3, "h4i": 4}


class Gen:
    def __init__(self, rng, cfg, throwing=False):
        self.r = rng
        self.cfg = cfg
        self.kind = cfg[0]
        self.throwing = throwing
        self.c = SMALL.get(cfg, 6)

    def n(self):
        r = self.r
        c = self.c
        if self.kind == "h":
            return r.choice([0, 1, c - 1, c, c, c + 1, c + 2, 2 * c + 1, r.randint(0, 12)])
        return r.choice([0, 1, c - 1, c, r.randint(0, c + 1)])

    def val(self):
        return self.r.randint(1, 60)

    def pat(self):
        return ",".join(str(self.val()) for _ in range(self.n()))

    def op(self):
        r = self.r
        o, p = r.randrange(3), r.randrange(3)
        if r.random() < 0.5:
            o = 0
        base = ["Push"] * 6 + ["PushAlias"] * 2 + ["Insert"] * 5 + ["InsertAlias"] * 3 + ["Erase"] * 4 + ["EraseRange"] * 2 + \
            ["Pop"] * 2 + ["Clear"] + ["Resize"] * 2 + ["ResizeAlias"] + ["Set"] * 2
        if self.kind in "fh":
            base += ["New"] * 2 + ["Reserve"] * (2 if self.kind == "h" else 1) + ["CopyCtor"] * 2 + ["CopyAssign"] * 3 + \
                ["MoveCtor"] * 2 + ["MoveAssign"] * 3
        elif self.kind == "s":
            base += ["New"] * 3 + ["MoveCtor"] + ["MoveAssign"] * 2
        else:
            base = ["New"] * 4 + ["MoveCtor"] * 2 + ["MoveAssign"] * 2 + ["Set"] * 4 + ["SetAll"] * 2
        n = r.choice(base)
        thr = ""
        if self.throwing and r.random() < 0.5 and n not in ("Set", "Pop", "Clear"):
            thr = " thr=%d" % r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8])
        big = r.randrange(1000)
        nn = r.randint(0, 6) if self.kind in "sa" else self.n()
        return "%s o=%d p=%d i=%d j=%d n=%d v=%d how=%d b=%s%s" % (n, o, p, big, r.choice([0, 1, 2, r.randrange(50)]) if n == "EraseRange" else r.randrange(50),
                                                              nn, self.val(), r.randrange(60), self.pat(), thr)


def scripts(rng, cfg, nscen, length, throwing):
    g = Gen(rng, cfg, throwing)
    lines = []
    for _ in range(nscen):
        lines.append("Begin")
        if g.kind == "s" and rng.random() < 0.8:
            for o in range(3):
                lines.append("New o=%d n=%d how=0" % (o, rng.randint(2, 8)))
        for k in range(length):
            lines.append(g.op())
            if rng.random() < 0.25:
                lines.append("Observe o=%d" % rng.randrange(3))
            if rng.random() < 0.02:
                lines.append("Macro n=%d b=%s" % (rng.randint(0, 8), g.pat()))
        lines += ["Observe o=%d" % o for o in range(3)]
    return lines


def large(rng, cfg, c, nscen, length):
    """few calls on containers that are nearly full, or about to leave their inline storage"""
    kind = cfg[0]
    lines = []
    for _ in range(nscen):
        lines.append("Begin")
        for o in range(2):
            n = rng.choice([c, c, c - 1, c + 1, 2 * c]) if kind == "h" else rng.choice([c, c, c - 1])
            if kind == "s":
                lines += ["New o=%d n=%d how=0" % (o, c), "Resize o=%d n=%d v=%d how=1" % (o, n, rng.randint(1, 60))]
            elif kind == "a":
                lines.append("New o=%d n=%d how=%d fill=%d v=%d" % (o, c, o, c, rng.randrange(61)))
            else:
                lines.append("New o=%d n=%d how=2 fill=%d v=%d" % (o, n, n, rng.randrange(61)))
        for _ in range(length):
            at = rng.choice([0, 1, c // 2, c - 3, c - 2, c - 1, c, c + 1, rng.randrange(c)])
            if kind == "a":
                op = rng.choice(["Set"] * 3 + ["MoveCtor", "MoveAssign", "SetAll"])
            else:
                op = rng.choice(["Push"] * 4 + ["Insert"] * 3 + ["PushAlias", "InsertAlias", "Erase", "Erase", "EraseRange", "Pop", "Resize", "Resize", "Set", "MoveAssign"] +
                                (["CopyCtor", "CopyAssign", "MoveCtor", "Reserve"] if kind != "s" else []))
            n = rng.choice([c - 1, c, c, 1] + ([c + 1, 2 * c] if kind == "h" else []))
            lines.append("%s o=%d p=%d i=%d j=%d n=%d v=%d how=%d" % (op, rng.randrange(2), rng.randrange(2), at,
                                                                  rng.choice([0, 1, 2, 3]), n, rng.randint(1, 60), rng.randrange(60)))
        lines += ["Observe o=%d" % o for o in range(2)]
    return lines


def with_throws(walk, rng):
    """the same walk, with an element failure injected into about a third of the calls"""
    out = []
    for ln in walk:
        if rng.random() < 0.35 and ln.split()[0] not in ("Begin", "Observe", "Set", "Pop", "Clear"):
            ln += " thr=%d" % rng.choice([1, 1, 2, 2, 3, 4])
        out.append(ln)
    return out


def check(ctx):
    prop = ctx.prop
    cfgs = PROPCFG[prop]
    variants = ["san17", "rel20"] if not ctx.thorough else ["san17", "rel20", "clang20", "rel17", "clang17"]
    groups = sorted({GROUPS[c] for c in cfgs})
    fb = {(v, g): ctx.pool.submit(vlib.build, ctx, "drv_vec.cpp", v, ("GROUP=%d" % g,)) for v in variants for g in groups}
    walks = {}
    for kind, cfg in WALK[prop]:
        edges = vlib.model_edges(ctx, "MC_Vec", "MC_Vec_" + kind, min_states=40)
        w, covered, total = vlib.cover_walks(edges, ctx.rng("walk" + kind), max_len=400)
        ctx.models.append("spec->code %s: %d of %d distinct transitions in %d scripts" % (kind, covered, total, len(w)))
        walks[cfg] = w
    bins = {k: f.result() for k, f in fb.items()}
    life = prop in ("V03", "V04")
    nscen, length = (4, 120) if not ctx.thorough else (60, 250)
    futs = []
    for v in variants:
        for cfg in cfgs:
            tag = "%s_%s" % (v, cfg)
            ctx.configs.append(tag)
            r = ctx.rng(tag)
            lines = scripts(r, cfg, nscen * (3 if prop in ("V02", "V04") else 1), length, prop == "V04")
            if cfg in walks and (v == "san17" or ctx.thorough):
                for w in walks[cfg]:
                    lines += with_throws(w, r) if prop == "V04" else w
            futs.append((tag, ctx.pool.submit(vlib.drive, ctx, bins[(v, GROUPS[cfg])], lines, tag, cfg + ("+life" if life else ""))))
    for cfg, c in LARGE[prop].items():
        for v in variants[:1] if not ctx.thorough else variants[:3]:
            tag = "%s_%s" % (v, cfg)
            ctx.configs.append(tag)
            n = (3, 25) if c < 1000 else (1, 12)
            lines = large(ctx.rng(tag), cfg, c, n[0] * (4 if ctx.thorough else 1), n[1])
            futs.append((tag, ctx.pool.submit(vlib.drive, ctx, bins[(v, GROUPS[cfg])], lines, tag, cfg + ("+life" if life else ""))))
    traces = [(tag, f.result()) for tag, f in futs]
    own = (lambda op: True) if prop != "V04" else (lambda op: op not in ("Observe", "Set"))
    vlib.validate(ctx, "Trace_Vec", traces, own=own, chunk=4000)
