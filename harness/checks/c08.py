"""C08: Clustering preserves momenta, invariants and spin states (Machine.tla: generated histories, recorded traces)."""
import machine
import small

QUICK = {'ff': 80, 'ff3': 40, 'padic': 20, 'padic1': 20, 'f3': 15, 'f5': 15, 'f7': 15, 'mpc': 30}


def run(ctx):
    plan = {k: v * ctx.pick(1, 12) for k, v in QUICK.items()}
    machine.check(ctx, 'C08', plan, steps=ctx.pick(12, 16), nmax=ctx.pick(6, 7))
    small.replay(ctx, 'cluster', 3, ctx.pick(10, 1), 1, ('C08',))
    small.replay(ctx, 'cluster', 5, ctx.pick(101, 6), 13, ('C08',))
