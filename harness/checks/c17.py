"""C17: ideals agree with points and with each other's symmetries (IdealGen.tla / Ideals.tla)."""
import ideals


def run(ctx):
    ideals.decide(ctx, ctx.pick(90, 1200), ctx.seed)
    ideals.decide(ctx, ctx.pick(40, 400), ctx.seed, coord=True)
