"""Small.tla: the machine over a field small enough to be covered completely; its scripts replayed into the code and judged by MachineTrace.tla."""
import json
import os
import random

import machine
from common import fields_for, import_lips, scratch, tlc

ONE = "CoherentAll ReadBack Involutions ParityTwice MassIsDot DotIsInvariant"
MANY = "CoherentAll Involutions ParityTwice RepairLaw RepairCovariant MassIsDot DotIsInvariant"


def model(ctx, m, n):
    """TLC explores the whole graph of points of n particles over F_m."""
    field = fields_for(m, ("ff",))["ff"]
    _, st = tlc("Small", cfg_text="SPECIFICATION Spec\nINVARIANTS " + (ONE if n == 1 else MANY) + "\n",
                env={"SMOD": m, "SIM": machine.library_i(field, m), "SN": n}, workers=4)
    ctx.add_stats(st)
    ctx.notes.setdefault("small_models", []).append({"field": m, "particles": n, "states": st["states"], "transitions": st["transitions"]})


def replay(ctx, fam, m, stride, ostride, tags, convention=None):
    """Scripts of one family: every stride-th (coprime to m, or some digit never varies), with every ostride-th operation of each."""
    assert stride == 1 or stride % m
    lips = import_lips()
    field = fields_for(m, ("ff",))["ff"]
    im = machine.library_i(field, m)
    f = scratch(f"small_{fam}_{m}_{os.getpid()}.json")
    _, st = tlc("Small", cfg_text="SPECIFICATION GSpec\n", env={"SMOD": m, "SIM": im, "SFAM": fam, "SFROM": ctx.seed % stride, "SSTRIDE": stride,
                                                              "SOSTRIDE": ostride, "SOUT": f})
    with open(f) as fh:
        scripts = json.load(fh)
    os.remove(f)
    if convention:
        scripts = [[{"op": "conv", "name": convention}] + s for s in scripts]
    rec = machine.Recorder(lips, m, "ff", field, im)
    traces = []
    for q, s in enumerate(scripts):
        random.seed(ctx.seed * 7 + q)
        traces.append(rec.run(s, resume=True))
    for t, i, c in machine.judge(ctx, traces, chunk=max(1, 3000 // max(1, len(scripts[0])))):
        if c.split(":")[0] in tags:
            st = traces[t]["steps"][i]
            start = max(k for k in range(i + 1) if traces[t]["steps"][k]["op"]["op"] in ("make", "makep"))
            ctx.violation(f"{c} [F_{m}, {fam}] after {json.dumps(st['op'])[:200]}" + (f" ({st['ret'].get('msg')})" if st["ret"]["st"] == "raise" else ""),
                          {"field": m, "clause": c, "script": [s["op"] for s in traces[t]["steps"][start:i + 1]], "ret": st["ret"]})
    steps = sum(len(t["steps"]) for t in traces)
    ctx.count("traces_validated_against_impl", len(traces))
    ctx.count("operations", steps)
    ctx.notes.setdefault("small_replays", []).append({"field": m, "family": fam, "scripts": len(traces), "operations": steps, "stride": stride, "ostride": ostride})
