"""C20: symmetries compatible with phase weights (Symm.tla, exhaustive over small weights)."""
import itertools
import json
import random

from common import import_lips, scratch, tlc

LEVEL = "model_checking"


def parse(sym):
    perm, par = sym
    return [[int(c) for c in perm], bool(par)]


def chunk_run(ctx, name, rec, descr):
    f, v = scratch(name + ".json"), scratch(name + ".out")
    with open(f, "w") as fh:
        json.dump(rec, fh)
    _, st = tlc("Symm", cfg_text="SPECIFICATION Spec\nINVARIANT GroupLaw\n", env={"TRACE": f, "VERDICT": v}, heap="4g")
    ctx.add_stats(st)
    with open(v) as fh:
        d = json.load(fh)
    if not d["complete"]:
        raise RuntimeError("recording does not cover the declared domain")
    keys = ["weights", "inverses", "full", "ident"]
    for phase, i, cl in d["bad"]:
        r = rec[keys[phase - 1]][i - 1]
        for c in cl:
            ctx.violation(f"{c} ({ {k: x for k, x in r.items() if k != 'out'} })", r)


def run(ctx):
    import_lips()
    from lips import symmetries as S
    rng = random.Random(ctx.seed)
    dims = ctx.pick([(1, -3, 3), (2, -3, 3), (3, -2, 2), (4, -2, 2)], [(1, -5, 5), (2, -4, 4), (3, -4, 4), (4, -3, 3), (5, -1, 1)])
    base = {"inverses": [], "full": [], "ident": [], "dims": [], "weights": []}
    for n, lo, hi in dims:
        rec = dict(base, dims=[{"n": n, "lo": lo, "hi": hi}], weights=[])
        for w in itertools.product(range(lo, hi + 1), repeat=n):
            form = rng.choice([tuple, list])
            try:
                out = [parse(s) for s in S.phase_weights_compatible_symmetries(form(w))]
            except Exception as e:
                ctx.violation(f"weights {w} raised {type(e).__name__}: {e}", {"w": w})
                out = []
            rec["weights"].append({"w": list(w), "out": out})
            ctx.count("traces_validated_against_impl")
        chunk_run(ctx, f"symm_{n}", rec, f"n={n}")
    rec = dict(base, weights=[], inverses=[], full=[], ident=[])
    for n in range(1, 7):
        ps = list(itertools.permutations(range(1, n + 1)))
        for p in ps if n <= 5 else rng.sample(ps, ctx.pick(100, 720)):
            s = "".join(map(str, p))
            for par in (False, True):
                g = S.inverse((s, par))
                rec["inverses"].append({"perm": list(p), "par": par, "inv": [int(c) for c in g[0]], "invpar": bool(g[1])})
            rec["inverses"].append({"perm": list(p), "par": False, "inv": [int(c) for c in S.inverse(s)], "invpar": False})
        rec["ident"].append({"n": n, "perm": parse(S.identity(n))[0], "par": parse(S.identity(n))[1]})
        if n <= 5 or not ctx.quick:
            rec["full"].append({"n": n, "out": [parse(s) for s in S.all_symmetries(n)]})
    k5 = ctx.pick(60, 400)
    for n, k in ((5, k5), (6, ctx.pick(8, 60))):
        for j in range(k):
            style = j % 6
            if style == 0:
                w = [rng.randint(-2, 2) for _ in range(n)]
            elif style == 1:                        # antisymmetric content: parity symmetries exist
                a = [rng.randint(-3, 3) for _ in range(n // 2)]
                w = a + [-x for x in a] + [0] * (n % 2)
                rng.shuffle(w)
            elif style == 2:
                w = [rng.choice([-1, 1]) for _ in range(n)]
            elif style == 3:
                w = [rng.choice([rng.randint(-9, 9), 0]) for _ in range(n)]
            elif style == 4:                        # large weights that differ little
                b = rng.choice([10 ** 4, 2 ** 15, 10 ** 6, 2 ** 30])
                w = [rng.choice([1, -1]) * (b + rng.randint(-1, 1)) for _ in range(n)]
            else:                                   # small and large together
                b = rng.choice([127, 128, 255, 256, 32768, 65536, 10 ** 8])
                w = [rng.choice([0, 1, -1, b, -b, b + 1, b - 1]) for _ in range(n)]
            rec["weights"].append({"w": w, "out": [parse(s) for s in S.phase_weights_compatible_symmetries(w)]})
            ctx.count("traces_validated_against_impl")
    chunk_run(ctx, "symm_rest", rec, "rest")
    ctx.count("evaluations", len(rec["inverses"]))
    ctx.notes["exhaustive_domains"] = [f"n={n}, weights {lo}..{hi}" for n, lo, hi in dims]
    ctx.sample({"w": rec["weights"][1]["w"], "symmetries": len(rec["weights"][1]["out"])})
