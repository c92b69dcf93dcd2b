"""Slices of LimitGen.tla (mode slice) built by the library; judged by Slices.tla (C12)."""
import json
import random
import re
import signal
from copy import deepcopy

import common
import limits
from common import NoProjection, glyphs, import_lips, residue, scratch, tlc

M = {"ff": 46337, "padic": 29791}


def monos(x, syms, m):
    """A component as monomials [e1, e2, c] over Z/m."""
    import sympy
    if not isinstance(x, sympy.Basic):
        return [[0, 0, residue(x, m)]]
    out = {}
    for mon, c in sympy.Poly(sympy.expand(x), *syms).terms():
        e = list(mon) + [0] * (2 - len(mon))
        if not c.is_Rational:
            raise NoProjection("coefficient " + str(c)[:40])
        out[tuple(e)] = residue(c, m)
    return [[a, b, c] for (a, b), c in out.items()]


def build(req, cfg, seed, limit):
    import numpy
    import sympy
    lips = import_lips()
    f = lips.Field("finite field", 46337, 1) if cfg == "ff" else lips.Field("padic", 31, 3)
    syms = sympy.symbols("t1 t2") if req["alg"] == "biv" else (sympy.symbols("t"),)
    m = M[cfg]
    rec = {"id": req["id"], "cfg": cfg, "n": req["n"], "alg": req["alg"], "m": m, "cons": req["cons"], "exprs": [], "legs": [], "values": [], "subs": [],
           "raised": False, "why": "", "strs": [glyphs(t) for t in req["ctoks"]]}
    random.seed(seed)
    numpy.random.seed(seed % 2**32)
    signal.signal(signal.SIGALRM, limits._alarm)
    signal.alarm(limit)
    try:
        p = lips.Particles(req["n"], field=f, seed=seed)
        kw = dict(extra_constraints=tuple(rec["strs"]), seed=None if req["unseeded"] else seed)
        if req["alg"] == "biv":
            p.bivariate_slice(**kw)
        else:
            p.univariate_slice(algorithm="generic" if req["alg"] == "gen" else "covariant", **kw)
    except limits.Alarm:
        rec.update(raised=True, why="TIMEOUT")
        return rec
    except Exception as e:
        rec.update(raised=True, why=type(e).__name__ + ": " + str(e)[:100])
        return rec
    finally:
        signal.alarm(0)
    poly = lambda A: [[monos(A[i, j], syms, m) for j in range(A.shape[1])] for i in range(A.shape[0])]
    rec["legs"] = [[poly(q.r_sp_d), poly(q.l_sp_d)] for q in p]
    for ast, tk in zip(req["exprs"], req["etoks"]):
        rec["exprs"].append(ast)
        rec["values"].append(monos(p(glyphs(tk)), syms, m))
    for tv in req["tv"]:
        q = deepcopy(p)
        if len(syms) == 2 and req["split"]:
            q.subs({syms[1]: tv[1]})
            q.subs({syms[0]: tv[0]})
        else:
            q.subs(dict(zip(syms, tv)))
        rec["subs"].append({"t": tv, "ordinary": True, "legs": [[[[residue(A[i, j], m) for j in range(A.shape[1])] for i in range(A.shape[0])] for A in
                                                                 (x.r_sp_d, x.l_sp_d, x.r2_sp)] for x in q]})
        kind = type(f(1) if cfg == "ff" else f.random()).__name__
        rec["subs"][-1]["ordinary"] = str(q.field) == str(f) and all(type(A[i, j]).__name__ == kind for x in q for A in (x.r_sp_d, x.l_sp_d)
                                                                     for i in range(A.shape[0]) for j in range(A.shape[1]))
    return rec


def _work(job):
    import contextlib
    import os
    req, cfg, seeds, limit = job
    with open(os.devnull, "w") as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
        for s in seeds:
            try:
                rec = common.through_library(build, req, cfg, s, limit)
            except NoProjection as e:
                if "precision" not in str(e) and "negative" not in str(e):
                    raise common.LibraryError(f"slice not made of numbers of the field: {e}")
                rec = {"key": -1, "raised": True, "why": "unknown: " + str(e), "id": req["id"], "cfg": cfg, "n": 0, "alg": req["alg"], "m": M[cfg], "cons": [],
                       "exprs": [], "legs": [], "values": [], "subs": [], "strs": []}
            if not rec["raised"]:
                break
    return rec


def replay(ctx, jobs, procs):
    import multiprocessing
    import_lips()
    if procs > 1:
        with multiprocessing.get_context("fork").Pool(procs) as pool:
            recs = pool.map(_work, jobs, chunksize=2)
    else:
        recs = [_work(j) for j in jobs]
    for k, r in enumerate(recs):
        r["key"] = k
    ctx.count("evaluations", len(jobs))
    ctx.count("traces_validated_against_impl", len(recs))
    return recs


def judge(ctx, recs, chunk=20, procs=5):
    """One TLC run per chunk, several at a time."""
    from concurrent.futures import ThreadPoolExecutor

    def one(c):
        path = scratch(f"slices_{ctx.pid}_{c}.json")
        with open(path, "w") as f:
            json.dump([{k: v for k, v in r.items() if k not in ("id", "cfg", "why", "strs")} for r in recs[c:c + chunk]], f)
        return tlc("Slices", "SPECIFICATION Spec\nINVARIANT Judge\nINVARIANT Count\n", env={"SIN": path}, check=False)
    bad, sure, made = [], 0, 0
    with ThreadPoolExecutor(procs) as ex:
        for out, st in ex.map(one, range(0, len(recs), chunk)):
            ctx.add_stats(st)
            s = re.findall(r'<<\s*"SURE",\s*(\d+),\s*(\d+)\s*>>', out)
            if st["rc"] != 0 or not s:
                raise common.MachineryError("Slices: TLC failed\n" + out[-3000:])
            sure += int(s[-1][0])
            made += int(s[-1][1])
            bad += [(w, recs[int(k)]) for w, k in re.findall(r'<<\s*"FAULT",\s*"([\w ]+)",\s*(\d+)\s*>>', out)]
    return bad, sure, made


def describe(what, rec):
    return f"slice {what}: {rec['cfg']} {rec['alg']} n={rec['n']} {rec['strs']} {rec['why']}"


def decide(ctx, plan, seed, procs=4):
    reqs = limits.generate(ctx, "slice", max(plan.values()), seed)
    jobs = [(r, cfg, [r["seed"]], 15) for cfg, c in plan.items() for r in reqs[:c] if cfg == "ff" or (r["alg"] == "cov" and not r["cons"] and r["n"] > 4)]
    recs = replay(ctx, jobs, procs)
    ctx.notes["build_s"] = round(ctx.elapsed())
    bad, sure, made = judge(ctx, recs)
    again = []
    for what, rec in bad:
        if what == "unserved":
            again.append((jobs[rec["key"]][0], rec["cfg"], [rec["key"] + 1000 + 7 * j for j in range(3)], 60))
        else:
            ctx.violation(describe(what, rec), rec)
    if again:
        for what, rec in judge(ctx, replay(ctx, again, procs))[0]:
            ctx.violation(describe(what, rec), rec)
    hist = {}
    for r in recs:
        k = f"{r['cfg']} {r['alg']} {len(r['strs'])} constraints"
        a = hist.setdefault(k, [0, 0])
        a[0] += 1
        a[1] += not r["raised"]
    ctx.notes["slices"] = {"asked_made": hist, "promised": sure, "judged": made, "retried": len(again)}
