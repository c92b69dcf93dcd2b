"""C13: Derived objects are independent of the originals, and equality is faithful (Machine.tla: generated histories, recorded traces)."""
import machine
import small

QUICK = {'ff': 100, 'ff3': 30, 'padic': 20, 'rational': 30, 'f3': 15, 'f5': 15, 'f7': 15, 'mpc': 30}


def run(ctx):
    plan = {k: v * ctx.pick(1, 12) for k, v in QUICK.items()}
    machine.check(ctx, 'C13', plan, steps=ctx.pick(12, 16), nmax=ctx.pick(6, 7))
    small.replay(ctx, 'eq', 3, ctx.pick(4, 1), 1, ('C13',))
