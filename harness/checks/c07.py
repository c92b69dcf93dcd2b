"""C07: Permutations and parity act as a group on phase-space points (Machine.tla: generated histories, recorded traces)."""
import machine
import small

QUICK = {'ff': 80, 'ff3': 20, 'padic': 20, 'padic1': 20, 'rational': 20, 'f3': 15, 'f5': 15, 'f7': 15, 'mpc': 20}


def run(ctx):
    plan = {k: v * ctx.pick(1, 12) for k, v in QUICK.items()}
    machine.check(ctx, 'C07', plan, steps=ctx.pick(12, 16), nmax=ctx.pick(6, 7))
    small.replay(ctx, 'image', 3, ctx.pick(10, 1), 1, ('C07',))
