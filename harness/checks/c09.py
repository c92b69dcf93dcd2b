"""C09: setting one invariant succeeds exactly or is reported (LimitGen.tla / Limits.tla)."""
import limits


def run(ctx):
    limits.decide(ctx, "one", {"ff": ctx.pick(2400, 20000), "padic": ctx.pick(1000, 8000), "mpc": ctx.pick(900, 6000)}, ctx.seed)
