"""Ideals of IdealGen.tla built by the library; judged by Ideals.tla (C17)."""
import itertools
import json
import random
import re
import signal

import common
import limits
from common import NoProjection, glyphs, import_lips, residue, scratch, tlc

M = 46337


def generate(ctx, count, seed, coord=False):
    path = scratch(f"ideals_{seed}_{int(coord)}.json")
    _, st = tlc("IdealGen", "SPECIFICATION Spec\n", env=dict(GCOUNT=count, GSEED=seed, GOUT=path, **({"GCOORD": 1} if coord else {})))
    ctx.add_stats(st)
    with open(path) as f:
        return json.load(f)


def polynomial(text, n):
    """Singular's text as [coefficient, [[variable, exponent]...]] monomials over Z/m."""
    import sympy
    pairs = list(itertools.combinations(range(1, n + 1), 2))
    expr = sympy.sympify(text.replace("^", "**"))
    syms = sorted(expr.free_symbols, key=str)
    if not syms:
        return [[residue(expr, M), []]]
    names = []
    for s in syms:
        k, i = re.fullmatch(r"([abcdAB])(\d+)", str(s)).groups() if re.fullmatch(r"([abcdAB])(\d+)", str(s)) else (None, 0)
        i = int(i)
        if k is None or (k in "abcd" and i > n) or (k in "AB" and i > len(pairs)):
            raise common.LibraryError(f"generator in unknown variables: {text[:80]}")
        names.append([k, i] if k in "abcd" else [k, *pairs[i - 1]])
    return [[residue(c, M), [[v, e] for v, e in zip(names, mon) if e]] for mon, c in sympy.Poly(sympy.expand(expr), *syms).terms()]


def legs(p):
    return [[[[residue(A[i, j], M) for j in range(A.shape[1])] for i in range(A.shape[0])] for A in (x.r_sp_d, x.l_sp_d, x.r2_sp)] for x in p]


def run_case(case, limit=60):
    lips = import_lips()
    from lips.algebraic_geometry.covariant_ideal import LipsIdeal
    from lips.algebraic_geometry.invariant_ideal import SpinorIdeal
    n = case["n"]
    f = lips.Field("finite field", M, 1)
    defs = tuple(glyphs(t) for t in case["dtoks"])
    rule = ("".join(map(str, case["perm"])), case["par"])
    rec = {"id": case["id"], "n": n, "defs": case["defs"], "perm": case["perm"], "par": case["par"], "pts": [], "off": [], "gens": [], "slice": [], "imggens": [],
           "qs": [], "imgqs": [], "same": True, "roundtrip": True, "classes": [], "strs": defs, "kind": case["kind"], "skipped": ""}
    random.seed(case["seed"])
    for s in range(2):
        signal.signal(signal.SIGALRM, limits._alarm)
        signal.alarm(20)
        try:
            p = lips.Particles.from_singular_variety(n, f, defs, seed=case["seed"] + s)
            rec["pts"].append(legs(p))
        except (limits.Alarm, Exception):      # finding points is the business of C11; here they are only used once they check out
            pass
        finally:
            signal.alarm(0)
    rec["off"] = [legs(lips.Particles(n, field=f, seed=case["seed"] + 5 + s)) for s in range(2)]
    signal.signal(signal.SIGALRM, limits._alarm)
    signal.alarm(limit)
    try:
        if case["kind"] == "spin":
            ideal = SpinorIdeal(n, defs)
            other = SpinorIdeal(n, tuple(glyphs(t) for t in case["rel"]))
        else:
            ideal = LipsIdeal(n, defs)
            other = LipsIdeal(n, tuple(glyphs(t) for t in case["rel"]))
        image = ideal.image(rule)
        inverse = "".join(str(case["perm"].index(k) + 1) for k in range(1, n + 1))
        rec["gens"] = [polynomial(g, n) for g in ideal.generators]
        rec["imggens"] = [polynomial(g, n) for g in image.generators]
        rec["same"] = bool(image == other)
        rec["roundtrip"] = bool(image.image((inverse, case["par"])) == ideal)
        if case["kind"] == "lips":
            for q in case["qs"]:
                rec["qs"].append({"role": q["role"], "ast": q["ast"], "member": bool(glyphs(q["toks"]) in ideal)})
            for ast, tk in zip(case["relasts"], case["rel"]):
                rec["imgqs"].append({"role": "in", "ast": ast, "member": bool(glyphs(tk) in image)})
            for q in case["qs"][5:7]:
                rec["imgqs"].append({"role": "ask", "ast": q["ast"], "member": bool(glyphs(q["toks"]) in image)})
            if case["slice"] and n <= 5:
                rec["slice"] = [polynomial(g, n) for g in ideal.invariant_slice().generators]
            if case["classes"]:
                rec["classes"] = [[list(map(int, k[0])), bool(k[1])] for k in ideal.equivalenceClass]
    except limits.Alarm:
        rec["skipped"] = "TIMEOUT"
    finally:
        signal.alarm(0)
    return rec


def run_coord(case, limit=60):
    """Ideals generated by spinor components; every question is decided by values on the coordinate subspace."""
    import_lips()
    from lips.algebraic_geometry.covariant_ideal import LipsIdeal
    from lips.algebraic_geometry.tools import lips_covariant_symbols
    from syngular import Ring
    n = case["n"]
    names = [f"{x}{i}" for x, i in case["vars"]]
    rec = {k: case[k] for k in ("id", "n", "kind", "open", "pts", "perm", "par")}
    rec.update(qs=[], imgqs=[], classes=[], same=True, skipped="", strs=names)
    signal.signal(signal.SIGALRM, limits._alarm)
    signal.alarm(limit)
    try:
        ideal = LipsIdeal(Ring("0", lips_covariant_symbols(n), "dp"), names)
        if case["open"]:
            twin = LipsIdeal(n, tuple(glyphs(t) for t in case["defs"]), momentum_conservation=False)
            rec["same"] = bool(twin == ideal) and not any(g in ideal for g in lips_covariant_symbols(n) if str(g) not in names)
            ideal = twin
        image = ideal.image(("".join(map(str, case["perm"])), case["par"]))
        for q in case["qs"]:
            text = glyphs(q["toks"])
            rec["qs"].append({"ast": q["ast"], "member": bool(text in ideal), "imember": bool(text in image)})
    except limits.Alarm:
        rec["skipped"] = "TIMEOUT"
    finally:
        signal.alarm(0)
    return rec


def _work(case):
    import contextlib
    import os
    with open(os.devnull, "w") as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
        return common.through_library(run_coord if case["kind"] == "coord" else run_case, case)


def judge(ctx, recs, chunk=25, procs=4):
    from concurrent.futures import ThreadPoolExecutor
    for k, r in enumerate(recs):
        r["key"] = k

    def one(c):
        path = scratch(f"idealrec_{ctx.pid}_{c}.json")
        with open(path, "w") as f:
            json.dump([{k: v for k, v in r.items() if k not in ("id", "strs", "skipped", "kind")} for r in recs[c:c + chunk]], f)
        return tlc("Ideals", "SPECIFICATION Spec\nINVARIANT Judge\nINVARIANT Done\n", env={"DIN": path}, check=False)
    bad, good = [], 0
    with ThreadPoolExecutor(procs) as ex:
        for out, st in ex.map(one, range(0, len(recs), chunk)):
            ctx.add_stats(st)
            d = re.findall(r'<<\s*"DONE",\s*(\d+)\s*>>', out)
            if st["rc"] != 0 or not d:
                raise common.MachineryError("Ideals: TLC failed\n" + out[-3000:])
            good += int(d[-1])
            bad += [(w, recs[int(k)]) for w, k in re.findall(r'<<\s*"FAULT",\s*"([^"]+)",\s*(\d+)\s*>>', out)]
    return bad, good


def decide(ctx, count, seed, procs=4, coord=False):
    import multiprocessing
    cases = generate(ctx, count, seed, coord)
    import_lips()
    if procs > 1:
        with multiprocessing.get_context("fork").Pool(procs) as pool:
            recs = pool.map(_work, cases, chunksize=2)
    else:
        recs = [_work(c) for c in cases]
    done = [r for r in recs if not r["skipped"]]
    bad, good = judge(ctx, done)
    ctx.count("evaluations", len(cases))
    ctx.count("traces_validated_against_impl", len(done))
    if coord:
        ctx.notes["ideals_of_components"] = {"built": len(done), "questions": 2 * sum(len(r["qs"]) for r in done), "members": sum(q["member"] for r in done for q in r["qs"])}
    else:
        ctx.notes["ideals"] = {"built": len(done), "timeouts": len(recs) - len(done), "with_points_on_the_variety": good,
                               "membership_questions": sum(len(r["qs"]) + len(r["imgqs"]) for r in done), "members": sum(q["member"] for r in done for q in r["qs"]),
                               "equivalence_classes": sum(bool(r["classes"]) for r in done), "bracket_ideals": sum(r["kind"] == "spin" for r in done)}
    for w, r in bad:
        ctx.violation(f"{w}: {r['kind']} n={r['n']} {list(r['strs'])} under {r['perm']} {r['par']}", r)
