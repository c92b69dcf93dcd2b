"""Replay of specification-generated evaluation obligations (EvalGen.tla)."""
import json
import random
from fractions import Fraction

import numpy
from pyadic import GaussianRational

from common import (NoProjection, fields_for, glyphs, import_lips, make_point, mass_glyph, residue_matrix, scratch, spec_spins,
                    tlc, lift)


def generate(ctx, mode, count, seed, m, chunk=150):
    out = []
    k = 0
    while k < count:
        c = min(chunk, count - k)
        f = scratch(f"eval_{mode}_{seed}_{m}_{k}.json")
        _, st = tlc("EvalGen", env={"GMODE": mode, "GCOUNT": c, "GSEED": seed * 131 + k // chunk + (7 if m != 46337 else 0), "GOUT": f, "GMOD": m},
                    cfg_text="SPECIFICATION Spec\nINVARIANT SpecSane\n")
        ctx.add_stats(st)
        with open(f) as fh:
            out += json.load(fh)
        k += c
    return out


def build(lips, case, fname, field, rng):
    m = case["m"]
    masses = {}
    for name, val in case["masses"]:
        masses[mass_glyph(name)] = glyphs(val) if isinstance(val, list) else lift(val, m, fname, field, rng)
    oPs = make_point(lips, case["base"], m, fname, field, rng, masses or None)
    if case["corners"]:
        oPs = oPs.cluster([list(c) for c in case["corners"]], massive_fermions=spec_spins(case["spins"]))
    return oPs


def describe(case, fname):
    return {"string": glyphs(case["toks"]), "field": fname, "modulus": case["m"], "expected": case["val"] if case["def"] else "rejection",
            "base": case["base"], "corners": case["corners"], "spins": case["spins"], "masses": case["masses"]}


def against_hint(v, exact, m):
    """The multi-precision value must agree with the exact one to 240 digits; its image is then that of the exact value."""
    import mpmath
    a, b = numpy.array(v, dtype=object), numpy.array(exact, dtype=object)
    if a.shape != b.shape:
        return residue_matrix(v, m)
    for x, y in zip(a.flatten(), b.flatten()):
        y = y if isinstance(y, GaussianRational) else GaussianRational(Fraction(y), Fraction(0))
        yy = mpmath.mpc(mpmath.mpf(y.real.numerator) / y.real.denominator, mpmath.mpf(y.imag.numerator) / y.imag.denominator)
        if isinstance(x, Fraction):
            x = mpmath.mpf(x.numerator) / x.denominator
        if abs(x - yy) > mpmath.mpf(10) ** -220 * (1 + abs(yy)):
            return [["differs from the exact value", mpmath.nstr(x, 8)]]
    return residue_matrix(exact, m)


def replay(ctx, cases, want, seed, purity=False, tag=""):
    lips = import_lips()
    from project import snapshot
    for case in cases:
        s = glyphs(case["toks"])
        hint = None
        for fname, field in fields_for(case["m"], want).items():
            if not case["def"] and case["kind"] != "chain":
                ctx.count("skipped_undefined")
                continue
            if fname == "rational" and case["corners"]:      # sums of legs need square roots, which the rationals lack
                continue
            rng = random.Random(seed * 1000003 + case["id"])
            try:
                oPs = build(lips, case, fname, field, rng)
            except NotImplementedError as e:
                if fname == "padic" and case["corners"]:      # pyadic has no square roots of odd valuation
                    ctx.count("padic_sqrt_skipped")
                    continue
                ctx.violation(f"{tag}building the point failed for case {case['id']} in {fname}: {e!r}", describe(case, fname))
                continue
            except Exception as e:
                ctx.violation(f"{tag}building the point failed for case {case['id']} in {fname}: {type(e).__name__}", describe(case, fname))
                continue
            before = snapshot(oPs) if purity else None
            ctx.count("evaluations")
            try:
                v = oPs(s)
            except Exception as e:
                if not case["def"]:
                    ctx.count("rejections_confirmed")
                    continue
                d = describe(case, fname)
                d["raised"] = f"{type(e).__name__}: {e}"[:300]
                ctx.violation(f"{tag}{s!r} raised {type(e).__name__} in {fname}", d)
                continue
            if not case["def"]:
                d = describe(case, fname)
                d["got"] = str(v)[:300]
                ctx.violation(f"{tag}{s!r} has contradictory brackets but was evaluated in {fname}", d)
                continue
            try:
                if fname == "mpc" and hint is not None:
                    got = against_hint(v, hint, case["m"])
                else:
                    got = residue_matrix(v, case["m"])
                if fname == "rational":
                    hint = v
            except NoProjection as e:
                d = describe(case, fname)
                d["got"] = str(v)[:300]
                if fname == "padic" and "precision" in str(e):
                    ctx.count("padic_precision_skipped")
                    continue
                ctx.violation(f"{tag}{s!r} gave an unprojectable value in {fname}: {e}", d)
                continue
            if got != case["val"]:
                d = describe(case, fname)
                d["got"] = got
                ctx.violation(f"{tag}{s!r} in {fname}: got {got}, specification says {case['val']}", d)
            if purity and snapshot(oPs) != before:
                ctx.violation(f"{tag}evaluating {s!r} in {fname} changed the point", describe(case, fname))
        ctx.count("traces_validated_against_impl")
        ctx.sample({"string": s, "expected": case["val"], "modulus": case["m"]})
