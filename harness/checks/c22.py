"""C22: Momentum arithmetic forms a vector space consistent with masses (Machine.tla: generated histories, recorded traces)."""
import machine
import small

QUICK = {'ff': 80, 'ff3': 30, 'padic': 20, 'padic1': 20, 'f3': 15, 'f5': 15, 'f7': 15, 'mpc': 30}


def run(ctx):
    plan = {k: v * ctx.pick(1, 12) for k, v in QUICK.items()}
    machine.check(ctx, 'C22', plan, steps=ctx.pick(12, 16), nmax=ctx.pick(6, 7))
    small.replay(ctx, 'arith', 3, ctx.pick(10, 1), 1, ('C22',))
    small.replay(ctx, 'arith', 5, ctx.pick(201, 21), 5, ('C22',))
