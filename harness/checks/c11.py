"""C11: points near a variety have the requested valuations or an error is raised (LimitGen.tla / Limits.tla)."""
import limits


def run(ctx):
    limits.decide(ctx, "var", {"ff": ctx.pick(240, 2000), "padic": ctx.pick(240,1500), "mpc": ctx.pick(40, 400)}, ctx.seed, procs=3)
