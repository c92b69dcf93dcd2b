"""C01: Generated phase-space points are on-shell and conserve momentum (Machine.tla: generated histories, recorded traces)."""
import machine

QUICK = {'ff': 50, 'ff3': 30, 'padic': 30, 'padic1': 30, 'rational': 30, 'mpc': 50}


def run(ctx):
    plan = {k: v * ctx.pick(1, 12) for k, v in QUICK.items()}
    machine.check(ctx, 'C01', plan, steps=ctx.pick(12, 16), nmax=ctx.pick(6, 7))
