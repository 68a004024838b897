"""D01: assertions as statements against spec/Asserts.tla."""
import json

import vlib


def check(ctx):
    th = ctx.thorough
    # (build, defines): every way to switch assertions on and off
    builds = [("san17", []), ("rel20", []), ("rel17", ["NAZARA_ENABLE_ASSERTS"]), ("clang20", ["NAZARA_NO_ASSERT"]), ("clang17", ["NAZARA_ENABLE_ASSERTS"])]
    if th:
        builds += [("san20", []), ("clang20", []), ("clang17", []), ("rel17", []), ("rel20", ["NAZARA_ENABLE_ASSERTS"]), ("rel23", []), ("rel23", ["NAZARA_ENABLE_ASSERTS"]),
                   ("clang23", []), ("rel20", ["NAZARA_ENABLE_ASSERTS", "NAZARA_NO_ASSERT"]), ("san17", ["NAZARA_NO_ASSERT"])]
    fb = [(v, d, ctx.pool.submit(vlib.build, ctx, "drv_assert.cpp", v, d)) for v, d in builds]
    r = vlib.model_check(ctx, "MC_Asserts", workers=1, min_states=5000)
    runs = sorted({x for x in r.out.splitlines() if x.startswith('"@T ')})
    runs = [json.loads(json.loads(x)[3:]) for x in runs]
    if len(runs) < 1000:
        raise vlib.CheckError("no runs emitted")
    lines = ["Run p=%d f=%d env=%s" % (a["p"], a["f"], ",".join(map(str, a["env"]))) for a in runs]
    ctx.models.append("spec->code: all %d runs of the model (program, form, valuation) in every build" % len(lines))
    futs = []
    rng = ctx.rng("hints")
    for v, d, f in fb:
        b = f.result()
        tag = "_".join([v] + [x.replace("NAZARA_", "") for x in d])
        ctx.configs.append(tag)
        # runs that differ only in conditions that are not looked at are the same run: a quick check takes one in three
        mine = lines if th or v == "san17" else [x for x in lines if ctx.rng(tag + x).random() < 0.35]
        script = []
        for k, x in enumerate(mine):
            if k % 200 == 0:
                script.append("Begin")
            script.append(x)
        script += ["Begin", "Constants"] + ["Hint how=%d v=%d" % (h, n) for h in range(8) for n in list(range(9)) + [rng.randrange(100000) for _ in range(6)]]
        futs.append((tag, ctx.pool.submit(vlib.drive, ctx, b, script, tag)))
    vlib.validate(ctx, "Trace_Asserts", vlib.merge(ctx, [(t, f.result()) for t, f in futs], 8), chunk=1000000)
    ctx.assumptions.append("Each run is a child process of the driver; only its pipes and its end are observed.")
