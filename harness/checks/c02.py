"""C02: All representations of a particle describe the same momentum (Machine.tla: generated histories, recorded traces)."""
import machine
import small

QUICK = {'ff': 80, 'ff3': 40, 'padic1': 30, 'rational': 30, 'f3': 15, 'f5': 15, 'f7': 15, 'mpc': 30}


def run(ctx):
    plan = {k: v * ctx.pick(1, 12) for k, v in QUICK.items()}
    machine.check(ctx, 'C02', plan, steps=ctx.pick(12, 16), nmax=ctx.pick(6, 7))
    small.model(ctx, 3, 1)
    small.replay(ctx, 'assign', 3, ctx.pick(4, 1), 1, ('C02',))
    small.replay(ctx, 'then', 3, 1, 1, ('C02',))
    small.replay(ctx, 'assign', 5, ctx.pick(61, 6), 13, ('C02',))
    small.replay(ctx, 'assign', 3, ctx.pick(28, 4), 1, ('C02',), convention='asymmetric')
    if ctx.tier == 'thorough':
        small.model(ctx, 5, 1)
        small.replay(ctx, 'then', 5, 1, 1, ('C02',))
