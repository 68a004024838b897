"""T01: generated programs over type lists against spec/List.tla."""
import vlib

TYPES = 13
HOWS = 8
INST = 3


def nums(s):
    return ",".join(str(x) for x in s)


def step(a, cur, rng, fns=(0, 1, 2, 3)):
    """The C++ instance for an action of the specification."""
    op = a["op"]
    if op in ("Append", "Prepend", "Remove", "Find", "Has"):
        return "%s<%s, %d>" % (op, cur, a["t"])
    if op in ("Concat", "ConcatTo"):
        return "%s<%s, L<%s>>" % (op, cur, nums(a["s"]))
    if op == "Transform":
        return "Transform<%s, %d>" % (cur, rng.choice(fns) if "fn" not in a else a["fn"])
    if op == "Instantiate":
        return "Instantiate<%s, %d>" % (cur, rng.randrange(INST))
    if op == "At":
        return "At<%s, %d>" % (cur, a["i"])
    if op == "Apply":
        return "Apply<%s, %d>" % (cur, a.get("how", rng.randrange(HOWS)))
    return "%s<%s>" % (op, cur)


def model_program(path, edges, rng):
    """Every transition of the model, the model's types standing for different types of C++."""
    seen = {}
    for f, a, t in edges:
        seen.setdefault(tuple(f), {})[vlib.act_line(a)] = a
    n = 0
    with open(path, "w") as out:
        out.write('Ev("Begin").emit();\n')
        for f, acts in sorted(seen.items()):
            types = rng.sample(range(TYPES), 3)
            ren = lambda x: types[x]
            cur = "L<%s>" % nums(ren(x) for x in f)
            for k in sorted(acts):
                a = dict(acts[k])
                if "t" in a:
                    a["t"] = ren(a["t"])
                if "s" in a:
                    a["s"] = [ren(x) for x in a["s"]]
                out.write("{ Start<%s>(); %s(); }\n" % (cur, step(a, cur, rng)))
                n += 1
    return n


def random_program(path, rng, scenarios, steps):
    with open(path, "w") as out:
        for _ in range(scenarios):
            out.write('Ev("Begin").emit();\n{ using L0 = L<>;\n')
            alpha = rng.sample(range(TYPES), rng.choice([2, 4, 6, TYPES]))
            size = 0
            t = lambda: rng.choice(alpha)
            for k in range(steps):
                cur = "L%d" % k
                op = rng.choice(["Append", "Append", "Prepend", "Concat", "ConcatTo", "Remove", "Unique", "Transform", "Instantiate", "At", "Find", "Has", "Size", "Empty", "Apply"])
                if size > 24 and op in ("Append", "Prepend", "Concat", "ConcatTo"):
                    op = rng.choice(["Unique", "Remove"])
                a = {"op": op, "t": t(), "s": [t() for _ in range(rng.randrange(5))], "i": rng.randrange(max(1, size))}
                if op in ("Append", "Prepend"):
                    size += 1
                elif op in ("Concat", "ConcatTo"):
                    size += len(a["s"])
                elif op == "Unique":
                    size = min(size, TYPES)
                out.write("%s S%d; using L%d = decltype(S%d)::R;\n" % (step(a, cur, rng), k, k + 1, k))
            out.write("}\n")


def check(ctx):
    th = ctx.thorough
    edges = vlib.model_edges(ctx, "MC_List", "MC_List_4" if th else "MC_List", min_states=40)
    rng = ctx.rng("programs")
    jobs = []
    for v in (["rel17", "san20"] if not th else ["rel17", "san20", "clang17", "clang20", "rel20", "san17"]):
        for k in range(1 if not th else 4):
            p = ctx.path("list_%s_%d.inc" % (v, k))
            random_program(p, rng, 12 if not th else 20, 40)
            jobs.append(("%s_random%d" % (v, k), v, p))
    parts = 3 if not th else 10
    byfrom = sorted({tuple(e[0]) for e in edges})
    total = 0
    for k in range(parts):
        mine = set(byfrom[k::parts])
        p = ctx.path("list_model_%d.inc" % k)
        total += model_program(p, [e for e in edges if tuple(e[0]) in mine], rng)
        for v in (["rel20"] if not th else ["rel17", "clang20"]):
            jobs.append(("%s_model%d" % (v, k), v, p))
    ctx.models.append("spec->code: %d transitions of the model, each an instantiation of the real templates" % total)

    def one(tag, v, p):
        b = vlib.build(ctx, "drv_list.cpp", v, (), "list_" + tag, ['-DNZV_GEN="%s"' % p, "-O0"])
        return tag, vlib.drive(ctx, b, ["Begin"], tag)
    futs = [ctx.pool.submit(one, *j) for j in jobs]
    res = [f.result() for f in futs]
    ctx.configs += [t for t, _ in res]
    vlib.validate(ctx, "Trace_List", res)
    ctx.assumptions.append("Lists longer than 29 types and uses that must not compile (an index out of range) are not explored.")
