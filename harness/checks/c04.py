"""C04: spinor strings evaluate to their algebraic definition (Expr.tla / EvalGen.tla)."""
import evalcases


def run(ctx):
    seed = ctx.seed
    cases = evalcases.generate(ctx, "atom", ctx.pick(450, 6000), seed, 46337)
    evalcases.replay(ctx, cases, ("ff", "rational", "mpc"), seed)
    cases = evalcases.generate(ctx, "atom", ctx.pick(150, 2000), seed, 29791)
    evalcases.replay(ctx, cases, ("padic", "rational"), seed)
    cases = evalcases.generate(ctx, "wide", ctx.pick(100, 1500), seed, 46337)
    evalcases.replay(ctx, cases, ("ff",), seed)
    for m in (3, 5, 7):             # fields in which everything degenerates
        cases = evalcases.generate(ctx, "atom", ctx.pick(150, 2000), seed, m)
        evalcases.replay(ctx, cases, ("ff",), seed)
