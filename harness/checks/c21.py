"""C21: Polarisation contractions (Machine.tla: generated histories, recorded traces; PolLaws is an invariant of the model)."""
import machine

QUICK = {'f3': 15, 'f5': 15, 'f7': 15, 'mpc': 80, 'ff': 30, 'padic': 20}


def run(ctx):
    plan = {k: v * ctx.pick(1, 12) for k, v in QUICK.items()}
    machine.check(ctx, 'C21', plan, steps=ctx.pick(12, 16), nmax=ctx.pick(6, 7))
