"""Diag.tla: the overall consistency check over the rationals and the complex numbers."""
import contextlib
import io
import json
import os
from fractions import Fraction

import mpmath
import numpy

from common import fields_for, import_lips, scratch, tlc

TEXT = {"A": "⟨{}|{}⟩", "S": "[{}|{}]", "C": "⟨{}|{}|{}]", "M": "s_{}{}", "O": "⟨{}|{}|"}


def generate(ctx, kind, count, chunk=400, **env):
    cases = []
    for q in range(0, count, chunk):
        f = scratch(f"diag_{kind}_{q}_{os.getpid()}.json")
        _, st = tlc("Diag", cfg_text="SPECIFICATION Spec\nINVARIANT DiagSane\n", env={"GKIND": kind, "GSEED": ctx.seed * 31 + q, "GCOUNT": min(chunk, count - q), "GOUT": f, **env})
        ctx.add_stats(st)
        with open(f) as fh:
            cases += json.load(fh)
        os.remove(f)
    return [d for d in cases if d["ok"]]


def quiet(f, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kw)


def tolerance(ctx, count):
    """Displaced conserving points: the two checks on either side of the field's tolerance."""
    lips = import_lips()
    for fname, m in (("mpc", 46337), ("padic", 29791), ("rational", 46337)):
        field = fields_for(m, (fname,))[fname]
        if fname == "mpc":
            env = {"GTOL": int(mpmath.floor(mpmath.log10(field.tollerance)))}
        elif fname == "padic":                      # p^-d: nothing below p^digits exists
            env = {"GTOL": 1 - field.digits, "GMARGIN": 0, "GLO": -field.digits - 3}
        else:
            env = {"GTOL": -1000, "GMARGIN": 0, "GLO": -300}
        for q, d in enumerate(generate(ctx, "tol", count, **env)):
            if fname == "rational" and d["d"] < -999:
                continue
            lift = {"mpc": mpmath.mpc, "padic": field, "rational": Fraction}[fname]
            step = {"mpc": lambda: mpmath.mpc(mpmath.mpf(10) ** d["d"]), "rational": lambda: Fraction(10) ** d["d"],
                    "padic": lambda: field(field.characteristic) ** (-d["d"]) if d["d"] else field(1)}[fname]()
            legs = []
            for sign in (1, -1):
                for r, l in d["pt"]:
                    legs.append(lips.Particle((numpy.array([[lift(sign * r[0])], [lift(sign * r[1])]]), numpy.array([[lift(l[0]), lift(l[1])]])), field=field))
            o = lips.Particles(legs, field=field, fix_mom_cons=False)
            a, b = d["ab"]
            P = numpy.array(o[d["k"]].r2_sp, dtype=object)
            P[a - 1, b - 1] = P[a - 1, b - 1] + step
            if fname == "rational":                 # no square roots: the momentum is displaced where it is stored
                o[d["k"]]._r2_sp = P
                o[d["k"]]._r2_sp_b = numpy.array([[P[1, 1], -P[0, 1]], [-P[1, 0], P[0, 0]]])
            else:
                try:
                    o[d["k"]].r2_sp = P
                except NotImplementedError:
                    if fname == "padic":            # no square roots of odd valuation
                        continue
                    raise
            ctx.count("tolerance_checks")
            got = [[bool(quiet(o.momentum_conservation_check, silent=s)), bool(quiet(o.onshell_relation_check, silent=s))] for s in (True, False)]
            if all(p.r_sp_d is not None and p.l_sp_d is not None for p in o) and not o.spinors_are_in_field_extension:      # the brackets it looks at exist in the field
                r = quiet(o.phasespace_consistency_check, silent=bool(q % 2))
                got.append([bool(r[0]), bool(r[1])])
            if any(g != [d["mom"], d["mass"]] for g in got):
                ctx.violation(f"checks over {fname} answer {got} instead of {[d['mom'], d['mass']]} (displacement of exponent {d['d']}, tolerance {env['GTOL']})", {"case": d, "field": fname})
            ctx.count("traces_validated_against_impl")


def check(ctx, count):
    lips = import_lips()
    for q, d in enumerate(generate(ctx, "outliers", count)):
        for fname, field in fields_for(46337, ("rational", "mpc")).items():
            ten = (lambda e: Fraction(10) ** e) if fname == "rational" else (lambda e: mpmath.mpc(mpmath.mpf(10) ** e))
            pt = d["pt"]
            legs = [lips.Particle((numpy.array([[pt["a"][k][0] * ten(pt["e"][k])], [pt["a"][k][1] * ten(pt["e"][k])]]),
                                   numpy.array([[pt["s"][k][0] * ten(pt["f"][k]), pt["s"][k][1] * ten(pt["f"][k])]])), field=field) for k in range(d["n"])]
            o = lips.Particles(legs, field=field, fix_mom_cons=False)
            names = [TEXT[v[0]].format(*v[1:]) for v in d["invs"]]
            arg = [TEXT[v[0]].format(*v[1:]) for v in d["given"]]
            kept = list(arg)
            r = quiet(o.phasespace_consistency_check, arg, silent=q % 3 > 0) if arg else quiet(o.phasespace_consistency_check, silent=q % 3 > 0)
            ctx.count("consistency_checks")
            info = {"case": d, "field": fname, "big": r[2], "small": r[3]}
            if sorted(r[3]) != sorted(names[k - 1] for k in d["small"]):
                ctx.violation(f"small invariants over {fname}: {r[3]} instead of {[names[k - 1] for k in d['small']]}", info)
            if sorted(r[2]) != sorted(names[k - 1] for k in d["big"]):
                ctx.violation(f"large invariants over {fname}: {r[2]} instead of {[names[k - 1] for k in d['big']]}", info)
            if bool(r[0]) != bool(o.momentum_conservation_check()) or bool(r[1]) != bool(o.onshell_relation_check()):
                ctx.violation(f"the overall check over {fname} contradicts the separate ones", info)
            if arg != kept:
                ctx.violation(f"the overall check over {fname} changed the caller's list", info)
        ctx.count("traces_validated_against_impl")
