"""Y01: type introspection against spec/Types.tla."""
import json

import vlib

EXPR = {"Ptr": "Ptr<T%d>", "LRef": "LRef<T%d>", "RRef": "RRef<T%d>", "Const": "Const<T%d>", "Volatile": "Volatile<T%d>", "Arr": "Arr<T%d, 3>", "UArr": "UArr<T%d>",
        "Ret": "Fun<T%d>", "Ret1": "Fun<T%d, int*>", "Par": "Fun<int, T%d>", "Par3": "Fun<void, T%d, const N::Bar&, T%d>", "Mem": "Mem<Foo, T%d>", "Tmpl": "Class<T%d>", "Tmpl2": "N::Pair<T%d, int>"}


def key(t):
    return json.dumps(t, sort_keys=True)


def tree(edges):
    """type -> (its parent, the action); parents come first."""
    parent = {}
    for f, a, t in edges:
        k = key(t["t"])
        if k not in parent:
            parent[k] = (key(f["t"]), a, t)
    return parent


def cpp_name(t):
    return t["n"] + ("<%s>" % ", ".join(cpp_name(x) for x in t["as"]) if t["k"] == "t" else "")


class Program:
    """The header that makes a choice of types and asks about them."""

    def __init__(self, parent):
        self.parent, self.ids, self.lines, self.calls, self.ast, self.flags = parent, {}, [], [], [], []

    def base(self, t):
        k = key(t)
        if k not in self.ids:
            self.new(k, t, cpp_name(t), -1, {"op": "Base", "name": cpp_name(t).replace(" ", "")}, t)

    def new(self, k, t, expr, frm, act, flags):
        n = len(self.ids)
        self.ids[k] = n
        self.ast.append(t)
        self.lines.append("using T%d = %s;" % (n, expr))
        traits, whole = flags if isinstance(flags, tuple) else (False, True)
        self.flags.append((traits, whole))
        self.calls.append('Make<T%d, %s, %s>(%d, %d, R"(%s)");' % (n, str(traits).lower(), str(whole).lower(), n, frm, json.dumps(act)))

    def add(self, k):
        todo = []
        while k not in self.ids:
            todo.append(k)
            k = self.parent[k][0]
        for k in reversed(todo):
            p, a, to = self.parent[k]
            f = self.ids[p]
            if a["op"] == "Qual":
                expr = "Qual<T%d, %s, %s, %d, %s>" % (f, str(a["c"]).lower(), str(a["v"]).lower(), {"": 0, "&": 1, "&&": 2}[a["ref"]], str(a["nx"]).lower())
            else:
                expr = EXPR[a["op"]].replace("%d", str(f))
            self.new(k, to["t"], expr, f, a, (to["tr"], to["wh"]))

    def questions(self, rng, n):
        funs = [i for i, t in enumerate(self.ast) if t["k"] == "f" and not t["v"]]
        plain = [i for i in funs if not self.ast[i]["c"] and not self.ast[i]["ref"]]
        for i in plain:
            if not self.ast[i]["nx"]:
                self.calls.append("PlainFunction<T%d>(%d);" % (i, i))
        decl = 0
        for i in [i for i, t in enumerate(self.ast) if t["k"] == "f"]:
            self.lines.append("struct Call%d { T%d operator(); };" % (i, i))
            form = rng.choice(["Call%d", "const Call%d", "Call%d&", "const Call%d&", "Call%d&&", "const Call%d&&"])
            self.calls.append('Functor<%s>(%d, "%s");' % (form % i, i, form % 0))
        for _ in range(n):
            free = rng.random() < 0.3
            pool = plain if free else funs
            chosen = {}
            for i in rng.sample(pool, min(len(pool), rng.randrange(1, 6))):
                chosen.setdefault(key(self.ast[i]["ps"]), i)
            fs = list(chosen.values())
            f = rng.choice(fs)
            args = []
            for p in self.ast[f]["ps"]:
                k = key(p)
                if k not in self.ids:
                    break
                args.append(self.ids[k])
            else:
                body = "".join("T%d f; " % i for i in fs)
                self.lines.append(("namespace Over%d { %s}" if free else "struct Over%d { %s};") % (decl, body))
                self.calls.append('Resolved<decltype(Nz::Overload<%s>(&Over%d::f))>("%s", { %s }, { %s });' % (", ".join("T%d" % a for a in args), decl, "" if free else "Over%d" % decl,
                                                                                                 ", ".join(map(str, fs)), ", ".join(map(str, args))))
                decl += 1
        for _ in range(n):
            t = rng.randrange(len(self.ast))
            as_ = [rng.randrange(len(self.ast)) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
            if as_ and rng.random() < 0.7:
                # a type and one that only differs by its qualifiers or references
                same = [i for i, x in enumerate(self.ast) if key(self.strip(x)) == key(self.strip(self.ast[t]))]
                as_[0] = rng.choice(same)
            for kind in ("Hidden", "First"):
                self.calls.append("%s<%s>(%d, { %s });" % (kind, ", ".join("T%d" % i for i in [t] + as_), t, ", ".join(map(str, as_))))
        for k in range(n // 8):
            kind = rng.choice(["Count", "Max"])
            under, top = rng.choice([("Nz::Int8", 127), ("Nz::UInt8", 255), ("int", 1 << 20), ("Nz::UInt64", 1 << 30), ("Nz::UInt16", 65535), ("", 1000)])
            last = rng.choice([0, 1, 2, top, rng.randrange(top + 1)])
            self.lines.append("enum %s En%d%s { %sA%d, %s = %d };" % ("class" if under else "struct", k, " : " + under if under else "", "", k, kind, last))
            self.calls.append('Values<En%d>("%s", %d);' % (k, kind, last))

    @staticmethod
    def strip(t):
        while t["k"] in ("l", "r"):
            t = t["of"]
        return {k: v for k, v in t.items() if k not in ("c", "v")} if t["k"] != "f" else t

    def write(self, path):
        chunks = [self.calls[i:i + 200] for i in range(0, len(self.calls), 200)]
        with open(path, "w") as f:
            f.write("\n".join(self.lines) + "\n")
            for n, c in enumerate(chunks):
                f.write("static void Generated%d()\n{\n\t%s\n}\n" % (n, "\n\t".join(c)))
            f.write("static void Generated()\n{\n\t%s\n}\n" % " ".join("Generated%d();" % n for n in range(len(chunks))))


def check(ctx):
    th = ctx.thorough
    pair = ctx.pool.submit(vlib.model_check, ctx, "MC_Types", "MC_Types_pair" if not th else "MC_Types_pair2", 2 if not th else 4)
    near = tree(vlib.model_edges(ctx, "MC_Types", "MC_Types", min_states=500))
    r = vlib.tlc(ctx, "MC_Types", "MC_Types_walk", args=["-simulate", "num=%d" % (60 if not th else 400), "-depth", "7", "-seed", str(ctx.rng("sim").randrange(1 << 30))], timeout=300)
    if r.rc != 0:
        raise vlib.CheckError("simulation of MC_Types failed:\n" + r.out[-3000:])
    deep = tree([tuple(json.loads(json.loads(x)[3:])) for x in r.out.splitlines() if x.startswith('"@T ')])
    bases = [f for f in {p for p, _, _ in list(near.values()) + list(deep.values())} if f not in near and f not in deep]
    variants = ["rel20", "clang17"] if not th else ["rel17", "rel20", "clang17", "clang20", "rel23"]
    jobs = []
    for v in variants:
        rng = ctx.rng("p/" + v)
        for part in range(2 if not th else 4):
            table = near if part % 2 == 0 else deep
            prog = Program(table)
            for b in sorted(bases):
                prog.base(json.loads(b))
            prog.base({"k": "n", "n": "N::Bar", "c": False, "v": False})
            keys = sorted(table)
            rng.shuffle(keys)
            for k in keys:
                if len(prog.ids) >= (350 if not th else 900):
                    break
                prog.add(k)
            prog.questions(rng, 60 if not th else 200)
            tag = "%s_%d" % (v, part)
            gen = ctx.path("gen_types_%s.inc" % tag)
            prog.write(gen)
            ctx.configs.append(tag)
            jobs.append((tag, ctx.pool.submit(vlib.build, ctx, "drv_types.cpp", v, [], "t%d" % part, ['-DNZV_GEN="%s"' % gen])))
    ctx.models.append("spec->code: types of the model written as C++ aliases, %d programs" % len(jobs))
    futs = [(tag, ctx.pool.submit(vlib.drive, ctx, b.result(), ["Begin"], tag)) for tag, b in jobs]
    pair.result()
    vlib.validate(ctx, "Trace_Types", [(t, f.result()) for t, f in futs], chunk=1000000)
    ctx.assumptions.append("Names are compared without spaces, for the GCC and Clang spelling of types; volatile overloads, variadic functions and noexcept functions given to FunctionPtr are out of contract.")
