"""C14: Consistency diagnostics tell the truth (Machine.tla: generated histories, recorded traces)."""
import diag
import machine
import small

QUICK = {'ff': 80, 'ff3': 30, 'padic': 30, 'padic1': 30, 'rational': 30, 'f3': 15, 'f5': 15, 'f7': 15, 'mpc': 30}


def run(ctx):
    plan = {k: v * ctx.pick(1, 12) for k, v in QUICK.items()}
    machine.check(ctx, 'C14', plan, steps=ctx.pick(12, 16), nmax=ctx.pick(6, 7))
    small.replay(ctx, 'check', 3, ctx.pick(4, 1), 1, ('C14',))
    small.replay(ctx, 'check', 5, ctx.pick(101, 11), 13, ('C14',))
    diag.check(ctx, ctx.pick(300, 6000))
    diag.tolerance(ctx, ctx.pick(150, 3000))
