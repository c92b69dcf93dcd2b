"""C18: seeded generation is reproducible (Seeds.tla; several processes with different hash seeds)."""
import json
import os
import subprocess
import sys

from common import MachineryError, scratch, tlc

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def history(ctx, seed, heavy, procs, steps):
    out = scratch(f"seeds_{seed}_{heavy}.json")
    _, st = tlc("Seeds", cfg_text="SPECIFICATION GenSpec\n", env={"GSEED": seed, "GPROCS": procs, "GSTEPS": steps, "GHEAVY": heavy, "GOUT": out})
    ctx.add_stats(st)
    with open(out) as f:
        plan = json.load(f)
    recs = []
    for k, steps_ in enumerate(plan):            # one after the other: the algebra system's scratch files are named by the generator
        f = scratch(f"plan_{seed}_{heavy}_{k}.json")
        with open(f, "w") as fh:
            json.dump(steps_, fh)
        env = dict(os.environ, PYTHONHASHSEED=str(k * 17 + 1))
        p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(HERE, "seedproc.py"), f], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=600)
        if p.returncode:
            raise MachineryError(p.stderr[-2000:])
        recs += [json.loads(line[4:]) for line in p.stdout.splitlines() if line.startswith("REC ")]
        ctx.count("processes")
    t, v = scratch(f"seedtr_{seed}_{heavy}.json"), scratch(f"seedvd_{seed}_{heavy}.json")
    with open(t, "w") as fh:
        json.dump([dict(r, st="ok" if r["st"] == "ok" else "failed") for r in recs], fh)
    _, st = tlc("Seeds", cfg_text="SPECIFICATION TraceSpec\n", env={"TRACE": t, "VERDICT": v})
    ctx.add_stats(st)
    with open(v) as fh:
        for i, cl in json.load(fh):
            for c in cl:
                ctx.violation(f"{c}: {recs[i - 1]['req']} ({recs[i - 1]['st']})", {"request": recs[i - 1]["req"], "plan": plan})
    ctx.count("traces_validated_against_impl")
    ctx.count("evaluations", len(recs))
    ctx.count("repeated_requests", len(recs) - len({json.dumps(r["req"]) for r in recs}))
    ctx.sample({"request": recs[0]["req"], "digest": recs[0]["dig"]})


def run(ctx):
    for k in range(ctx.pick(1, 10)):
        history(ctx, ctx.seed * 31 + k, 0, ctx.pick(3, 4), ctx.pick(160, 300))
    for k in range(ctx.pick(1, 6)):
        history(ctx, ctx.seed * 37 + k, 1, ctx.pick(2, 3), ctx.pick(14, 40))
