"""C19: Points are one-based containers addressable by spinor labels (Machine.tla: generated histories, recorded traces)."""
import machine

QUICK = {'ff': 80, 'ff3': 30, 'padic': 20, 'rational': 20, 'f3': 15, 'f5': 15, 'f7': 15, 'mpc': 20}


def run(ctx):
    plan = {k: v * ctx.pick(1, 12) for k, v in QUICK.items()}
    machine.check(ctx, 'C19', plan, steps=ctx.pick(12, 16), nmax=ctx.pick(6, 7))
    # labels of two digits
    machine.check(ctx, 'C19', {"ff": ctx.pick(20, 200), "padic": ctx.pick(5, 50)}, steps=10, nmin=10, nmax=12)
