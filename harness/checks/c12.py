"""C12: slices satisfy all constraints identically in their parameters (LimitGen.tla / Slices.tla)."""
import slices


def run(ctx):
    slices.decide(ctx, {"ff": ctx.pick(90, 1200), "padic": ctx.pick(40, 400)}, ctx.seed)
