"""C06: evaluation commutes with changing the number field (ConvGen.tla / Conv.tla)."""
import conv


def run(ctx):
    conv.decide(ctx, ctx.pick(400, 6000), ctx.seed)
