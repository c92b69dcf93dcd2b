"""C05: composite expressions (Expr.tla meaning, Render.tla notation)."""
import evalcases
import machine

PLAN = {'ff': 40, 'ff3': 20, 'f5': 15, 'rational': 25, 'padic': 15, 'mpc': 25}


def run(ctx):
    seed = ctx.seed
    cases = evalcases.generate(ctx, "exp", ctx.pick(450, 6000), seed, 46337)
    evalcases.replay(ctx, cases, ("ff", "rational", "mpc"), seed, purity=True)
    cases = evalcases.generate(ctx, "exp", ctx.pick(150, 2000), seed, 29791)
    evalcases.replay(ctx, cases, ("padic", "rational"), seed, purity=True)
    cases = evalcases.generate(ctx, "wideexp", ctx.pick(100, 1500), seed, 46337)
    evalcases.replay(ctx, cases, ("ff",), seed, purity=True)
    cases = evalcases.generate(ctx, "spin", ctx.pick(150, 2000), seed, 46337)
    evalcases.replay(ctx, cases, ("ff", "rational"), seed, purity=True)
    for m in (3, 5, 7):             # fields in which everything degenerates
        cases = evalcases.generate(ctx, "exp", ctx.pick(150, 2000), seed, m)
        evalcases.replay(ctx, cases, ("ff",), seed, purity=True)
    machine.check(ctx, 'C05', {k: v * ctx.pick(1, 12) for k, v in PLAN.items()}, steps=ctx.pick(14, 18))
