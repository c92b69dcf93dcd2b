"""C03: Momentum-conservation repair is exact and touches only what it may (Machine.tla: generated histories, recorded traces)."""
import machine
import small

QUICK = {'ff': 80, 'ff3': 40, 'padic1': 30, 'rational': 30, 'f3': 15, 'f5': 15, 'f7': 15, 'mpc': 30}


def run(ctx):
    plan = {k: v * ctx.pick(1, 12) for k, v in QUICK.items()}
    machine.check(ctx, 'C03', plan, steps=ctx.pick(12, 16), nmax=ctx.pick(6, 7))
    small.replay(ctx, 'fix', 3, ctx.pick(4, 1), 1, ('C03',))
    small.replay(ctx, 'fix', 5, ctx.pick(61, 6), ctx.pick(13, 3), ('C03',))
    if ctx.tier == 'thorough':
        small.model(ctx, 3, 2)
        small.replay(ctx, 'fix', 7, 20, 20, ('C03',))
