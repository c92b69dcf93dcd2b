"""Histories of ConvGen.tla (changes of number field) run on the library; judged by Conv.tla (C06)."""
import json
import random
import re
from copy import deepcopy
from fractions import Fraction

import common
from common import NoProjection, glyphs, import_lips, mass_glyph, residue, residue_matrix, scratch, tlc

MODS = (46337, 44521, 211)
RING_MODS = {"Q": (0, 1, 2), "G": (0,), "F": (0,), "Z": (1, 2), "f": (2,), "e": (2,)}


def generate(ctx, count, seed):
    path = scratch(f"conv_{seed}.json")
    _, st = tlc("ConvGen", "SPECIFICATION Spec\n", env=dict(GCOUNT=count, GSEED=seed, GOUT=path))
    ctx.add_stats(st)
    with open(path) as f:
        return json.load(f)


def res(x, q):
    """Residue of a number in the modulus q; a 211-adic number or residue is also seen modulo 211."""
    m = MODS[q]
    tn = type(x).__name__
    if tn == "PAdic" and m == 211:
        if x.n + x.k < 1:
            raise NoProjection("precision")
        if x.n < 0:
            raise NoProjection("negative valuation")
        return int(x.num) * 211 ** x.n % 211
    if tn == "PAdic":
        return common.padic_residue(x, m)
    return residue(x, m)


def seen(A, qs, q):
    if q not in qs:
        return []
    import numpy
    A = numpy.array(A, dtype=object)
    if A.ndim != 2:
        A = numpy.array([[A.item()]], dtype=object)
    try:
        return [[res(A[i, j], q) for j in range(A.shape[1])] for i in range(A.shape[0])]
    except NoProjection as e:
        if any(w in str(e) for w in ("precision", "negative", " mod ", "imaginary")):
            return []
        raise common.LibraryError(f"number of the wrong field: {e}")


def legs_of(p, qs):
    out = []
    for q in range(3):
        ls = [[seen(A, qs, q) for A in (x.r_sp_d, x.l_sp_d, x.r2_sp)] for x in p]
        out.append([] if any(A == [] for leg in ls for A in leg) else ls)
    return out


def as_number(x, ring):
    """An integer or rational representative to substitute for a symbol."""
    import sympy
    tn = type(x).__name__
    if tn == "ModP":
        return sympy.Integer(int(x.n))
    if tn == "PAdic":
        if x.n < 0:
            raise NoProjection("negative valuation")
        return sympy.Integer(int(x.num) * x.p ** x.n)
    if tn == "GaussianRational":
        return sympy.Rational(x.real.numerator, x.real.denominator) + sympy.I * sympy.Rational(x.imag.numerator, x.imag.denominator)
    f = Fraction(x)
    return sympy.Rational(f.numerator, f.denominator)


def run_case(case):
    import numpy
    import sympy
    lips = import_lips()
    from lips.algebraic_geometry.particles_singular_variety import finite_field_to_padic, padic_to_finite_field
    fields = {"Q": lips.Field("rational", 0, 0), "G": lips.Field("gaussian rational", 0, 0), "F": lips.Field("finite field", 46337, 1),
              "Z": lips.Field("padic", 211, 6), "f": lips.Field("finite field", 211, 1)}
    random.seed(case["seed"])
    numpy.random.seed(case["seed"] % 2**32)
    masses = {mass_glyph(nm): Fraction(a, b) for nm, a, b in case["mass"]}
    p = lips.Particles(case["n"], field=fields[case["src"]], seed=case["seed"], internal_masses=masses or None)
    ring = case["src"]
    rec = {"id": case["id"], "steps": case["steps"], "legs": legs_of(p, RING_MODS[ring]), "obs": [],
           "mass": [[nm, [Fraction(a, b).numerator * pow(b // __import__("math").gcd(a, b), -1, m) % m for m in MODS]] for nm, a, b in case["mass"]]}
    for s in case["steps"]:
        val = [[], [], []]
        if s["op"] == "to":
            if any(ls == [] for q, ls in enumerate(legs_of(p, RING_MODS[ring])) if q in RING_MODS[ring] and q in RING_MODS[s["ring"]]):
                break                    # a denominator that is not invertible in the new ring: no reduction exists
            if s["ring"] == "e":
                padic_to_finite_field(p)
            elif ring == "e":
                finite_field_to_padic(p)
            elif ring == "f" and s["ring"] == "f" and p.field.name == "padic":
                pass
            else:
                p.to_field(fields[s["ring"]])
            ring = s["ring"]
        elif s["op"] == "image":
            p = p.image(("".join(map(str, s["perm"])), s["par"]))
        elif s["op"] == "eval":
            try:
                v = p(glyphs(s["toks"]))
            except (ZeroDivisionError, ValueError) as e:
                v = None if ("ero" in str(e) or "nvert" in str(e) or isinstance(e, ZeroDivisionError)) else _again(e)
            if v is not None:
                val = [seen(v, RING_MODS[ring], q) for q in range(3)]
        elif s["op"] == "sym":
            q = deepcopy(p)
            subs = p.analytical_subs_d()
            q.make_analytical_d(tuple(s["mask"]))
            v = q(glyphs(s["toks"]))
            try:
                nums = {k: as_number(x, ring) for k, x in subs.items()}
                arr = numpy.array(v, dtype=object)
                if arr.ndim != 2:
                    arr = numpy.array([[arr.item()]], dtype=object)
                w = [[_value(x, nums) for x in row] for row in arr]
                val = [seen(w, RING_MODS[ring], k) for k in range(3)]
            except NoProjection:
                pass
        elif s["op"] == "back":
            subs = p.analytical_subs_d()
            if all(getattr(x, "n", 0) >= 0 for x in subs.values()):
                f = p.field
                p.make_analytical_d()
                subs = dict(subs)
                for q, nm in enumerate(sorted(masses)):          # masses may be symbolic too
                    try:
                        mu = as_number(getattr(p, nm), ring)
                    except NoProjection:
                        continue
                    t = sympy.Symbol(f"t{q}")
                    tau, form = {0: (mu, t), 1: (sympy.Integer(5), 2 * t + (mu - 10)), 2: (mu, t * 1), 3: (mu - 7, t + 7)}[case["seed"] % 4]
                    setattr(p, nm, form)
                    subs[t] = tau
                if ring == "F":                                  # in two stages: one component first becomes a power of another symbol (cubes are onto)
                    u, a = sympy.Symbol("u"), sorted((k for k in subs if str(k)[0] in "abcd"), key=str)[case["seed"] % (4 * len(p))]
                    root = pow(int(subs[a]), pow(3, -1, 46336), 46337)
                    subs[a] = u ** 3
                    p.subs(subs)
                    subs = {u: root}
                p.subs(subs)
                assert p.field is f
        fld = fields.get(ring)
        ok = True if ring == "e" else p.field.name == fld.name and p.field.characteristic == fld.characteristic and all(x.field.name == fld.name for x in p)
        rec["obs"].append({"field": bool(ok), "legs": legs_of(p, RING_MODS[ring]), "val": val,
                           "mass": [[nm, [seen(getattr(p, mass_glyph(nm)), RING_MODS[ring], q) for q in range(3)]] for nm, _, _ in case["mass"]]})
    return rec


def _again(e):
    raise e


def _value(x, nums):
    import sympy
    if not isinstance(x, sympy.Basic):
        return x
    y = sympy.expand(x.subs(nums, simultaneous=True))
    if y.is_Rational:
        return Fraction(int(y.p), int(y.q))
    re_, im_ = y.as_real_imag()
    if re_.is_Rational and im_.is_Rational:
        from pyadic import GaussianRational
        return GaussianRational(Fraction(int(re_.p), int(re_.q)), Fraction(int(im_.p), int(im_.q)))
    raise NoProjection("not a number: " + str(y)[:60])


def _work(case):
    import contextlib
    import os
    with open(os.devnull, "w") as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
        return common.through_library(run_case, case)


def judge(ctx, recs, chunk=100, procs=4):
    from concurrent.futures import ThreadPoolExecutor
    for k, r in enumerate(recs):
        r["key"] = k

    def one(c):
        path = scratch(f"convrec_{ctx.pid}_{c}.json")
        with open(path, "w") as f:
            json.dump(recs[c:c + chunk], f)
        return tlc("Conv", "SPECIFICATION Spec\nINVARIANT Judge\nINVARIANT Done\n", env={"CIN": path}, check=False)
    bad = []
    with ThreadPoolExecutor(procs) as ex:
        for out, st in ex.map(one, range(0, len(recs), chunk)):
            ctx.add_stats(st)
            if st["rc"] != 0 or '"DONE"' not in out:
                raise common.MachineryError("Conv: TLC failed\n" + out[-3000:])
            bad += [(int(f), recs[int(k)]) for f, k in re.findall(r'<<\s*"FAULT",\s*(\d+),\s*(\d+)\s*>>', out)]
    return bad


def decide(ctx, count, seed, procs=6):
    import multiprocessing
    cases = generate(ctx, count, seed)
    import_lips()
    if procs > 1:
        with multiprocessing.get_context("fork").Pool(procs) as pool:
            recs = pool.map(_work, cases, chunksize=4)
    else:
        recs = [_work(c) for c in cases]
    hist = {}
    for c, r in zip(cases, recs):
        for s, o in zip(c["steps"], r["obs"]):
            k = s["op"] + " " + s["ring"]
            a = hist.setdefault(k, [0, 0])
            a[0] += 1
            a[1] += any(v != [] for v in o["val"]) if s["op"] in ("eval", "sym") else any(v != [] for v in o["legs"])
    ctx.count("evaluations", sum(len(r["obs"]) for r in recs))
    ctx.count("traces_validated_against_impl", len(recs))
    ctx.notes["steps_observed"] = hist
    for k, rec in judge(ctx, recs):
        s = rec["steps"][k - 1]
        what = f"step {k} of history {rec['id']} (seed {seed}): {s['op']} in {s['ring']} {glyphs(s['toks']) if s['toks'] else ''}"
        ctx.violation(what, {"case": cases[rec["key"]], "obs": rec["obs"][k - 1]})
