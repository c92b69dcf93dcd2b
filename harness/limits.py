"""Requests of LimitGen.tla replayed on the library; outcomes judged by Limits.tla (C09, C10)."""
import json
import random
import signal

import astval
import common
from common import NoProjection, glyphs, import_lips, residue, scratch, tlc

M = {"ff": 46337, "padic": 29791}


def generate(ctx, mode, count, seed, chunk=400):
    out, done = [], 0
    while done < count:
        c = min(chunk, count - done)
        path = scratch(f"lim_{mode}_{seed}_{done}.json")
        _, st = tlc("LimitGen", "SPECIFICATION Spec\n", env=dict(GMODE=mode, GCOUNT=c, GSEED=seed + 31 * done, GOUT=path))
        ctx.add_stats(st)
        with open(path) as f:
            out += json.load(f)
        done += c
    return out


def field(lips, cfg):
    return {"ff": lambda: lips.Field("finite field", 46337, 1), "padic": lambda: lips.Field("padic", 31, 8),
            "mpc": lambda: lips.Field("mpc", 0, 300)}[cfg]()


def target(f, cfg, t):
    """(value handed to the library, its residue or None)"""
    cls, x = t
    if cfg == "ff":
        v = 0 if cls == "z" else x
        return f(v), v
    if cfg == "padic":
        from pyadic import PAdic
        v = 0 if cls == "z" else x * (31 if cls == "s" else 1)
        return PAdic(v, 31, 8), v % M["padic"]
    import mpmath
    v = mpmath.mpf(0) if cls == "z" else mpmath.mpf(x) * mpmath.mpf(10) ** -30 if cls == "s" else mpmath.mpc(x, x % 977) / 9973
    return v, None


class Alarm(BaseException):        # not an Exception: the library catches those on its way to another solver
    pass


def _alarm(*_):
    raise Alarm()


def mat(A):
    return [[A[i, j] for j in range(A.shape[1])] for i in range(A.shape[0])]


def small(x):
    """Integer size of a number that should vanish: decimal exponent for complex numbers, 0/1 otherwise."""
    import mpmath
    if type(x).__name__ in ("mpf", "mpc"):
        a = abs(x)
        if not mpmath.isfinite(a):
            return 999
        return -1000 if a == 0 else int(mpmath.floor(mpmath.log10(a)))
    if type(x).__name__ == "PAdic":
        return 0 if (x.n >= 3 or x.num == 0) else 1
    return 0 if x == 0 else 1


def outcome(p, asts, cfg, vals):
    """What the specification is shown of the point left behind."""
    rec = {"legs": [], "mc": [], "os": [], "minus": [], "plus": [], "bound": 0, "how": "exact"}
    legs = [(mat(q.r_sp_d), mat(q.l_sp_d)) for q in p]
    Ps = [mat(q.r2_sp) for q in p]
    m = M.get(cfg)
    if m:
        try:
            rec["legs"] = [[[[residue(x, m) for x in row] for row in A] for A in (r, l, P)] for (r, l), P in zip(legs, Ps)]
            return rec
        except NoProjection as e:
            if "precision" in str(e) or "negative" in str(e):
                rec["how"] = "unknown"
                return rec
    pt = astval.Point(legs, Ps)
    tot = pt.sumP(list(range(1, len(Ps) + 1)))
    rec["mc"] = [small(x) for row in tot for x in row]
    rec["os"] = [small(astval.det(P)) for P in Ps]
    for (r, l), P in zip(legs, Ps):
        rec["os"] += [small(x) for row in astval.add(astval.mm(astval.lu(l), astval.ru(r)), P, -1) for x in row]
    for a, v in zip(asts, vals):
        x = pt.ev(a)
        rec["minus"].append(small(x - v))
        rec["plus"].append(small(x + v))
    rec["how"] = "residual"
    rec["bound"] = -280 if cfg == "mpc" else 0
    return rec


def attempt_variety(lips, req, cfg, seed):
    """variety() and from_singular_variety(): valuations are orders for p-adic fields, ignored for finite fields, values otherwise."""
    f = field(lips, cfg)
    import numpy
    strs = tuple(glyphs(t) for t in req["toks"])
    vals = tuple(req["ffval"]) if cfg == "ff" else tuple(req["ord"]) if cfg == "padic" else tuple(target(f, cfg, t)[0] for t in req["tgt"])
    # "var" promises success to built-in constructions; any other combination is only judged on what it returns
    kind = ("ordge" if req["direct"] else "ord") if cfg == "padic" else "var" if (cfg == "mpc" or not any(vals)) and not req["direct"] else "dir"
    rec = {"id": req["id"], "n": req["n"], "fams": req["fams"], "asts": req["asts"], "m": M.get(cfg, 0), "cfg": cfg, "kind": kind, "raised": "",
           "tgt": list(req["ord"]) if cfg == "padic" else [0] * len(strs), "tcls": [str(req["solver"]), str(req["direct"])]}
    random.seed(seed)
    numpy.random.seed(seed % 2**32)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(40)
    p = None
    try:
        if req["direct"]:
            p = lips.Particles.from_singular_variety(req["n"], f, strs, vals, seed=seed)
        else:
            p = lips.Particles(req["n"], field=f, seed=seed)
            p.variety(strs, vals, try_singular_variety_solver=req["solver"])
    except Alarm:
        rec["raised"] = "TIMEOUT"
    except Exception as e:
        rec["raised"] = type(e).__name__ + ": " + str(e)[:120]
    finally:
        signal.alarm(0)
    blank = {"legs": [], "mc": [], "os": [], "minus": [], "plus": [], "bound": 0, "how": "raised"}
    if not rec["raised"]:
        blank = outcome(p, req["asts"], cfg, vals if cfg == "mpc" else [0] * len(strs))
        if blank["how"] == "residual" and cfg == "padic":
            blank["how"] = "unknown"
    rec.update(blank)
    rec["strs"] = strs
    return rec


def attempt(lips, req, cfg, seed, call):
    if call == "var":
        return attempt_variety(lips, req, cfg, seed)
    f = field(lips, cfg)
    random.seed(seed)
    import numpy
    numpy.random.seed(seed % 2**32)
    p = lips.Particles(req["n"], field=f, seed=seed)
    random.seed(seed + 1)
    strs = [glyphs(t) for t in req["toks"]]
    tv = [target(f, cfg, t) for t in req["tgt"]]
    rec = {"id": req["id"], "n": req["n"], "fams": req["fams"], "asts": req["asts"], "m": M.get(cfg, 0), "cfg": cfg,
           "tgt": [v[1] if v[1] is not None else 0 for v in tv], "kind": call, "raised": "", "tcls": [t[0] for t in req["tgt"]]}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(60)
    try:
        if req.get("prior"):
            try:
                p._set(glyphs(req["prior"][0]), target(f, cfg, ("g", req["prior"][1]))[0])
            except Exception:
                p = lips.Particles(req["n"], field=f, seed=seed)
        if call == "one":
            p._set(strs[0], tv[0][0])
        else:
            p._set_pair(strs[0], tv[0][0], strs[1], tv[1][0])
    except Alarm:
        rec["raised"] = "TIMEOUT"
    except Exception as e:
        rec["raised"] = type(e).__name__ + ": " + str(e)[:120]
    finally:
        signal.alarm(0)
    blank = {"legs": [], "mc": [], "os": [], "minus": [], "plus": [], "bound": 0, "how": "raised"}
    if not rec["raised"]:
        try:
            blank = outcome(p, req["asts"], cfg, [v[0] for v in tv])
        except NotImplementedError:
            blank["how"] = "unknown"
    rec.update(blank)
    rec["strs"] = strs
    return rec


def describe(rec):
    return f"{rec['cfg']} n={rec['n']} {list(rec['strs'])} {rec['tcls']} {rec['tgt']} -> {rec['raised'] or rec['how']}"


def _work(job):
    """One request at up to len(seeds) starting points; stops at the first that does not raise."""
    req, cfg, call, seeds = job
    import contextlib
    import os
    lips = import_lips()
    rec = None
    with open(os.devnull, "w") as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
        for s in seeds:
            rec = common.through_library(attempt, lips, req, cfg, s, call)
            rec["succeeded"] = rec["how"] != "raised"
            if rec["succeeded"]:
                break
    rec["job"] = [req["id"], cfg, call]
    return rec


def replay(ctx, jobs, procs=6):
    import multiprocessing
    import_lips()
    if procs > 1:
        with multiprocessing.get_context("fork").Pool(procs) as pool:
            recs = pool.map(_work, jobs, chunksize=4)
    else:
        recs = [_work(j) for j in jobs]
    ctx.count("evaluations", sum(len(j[3]) for j in jobs))
    ctx.count("traces_validated_against_impl", len(recs))
    for k, r in enumerate(recs):
        r["key"] = k
    return recs


RETRY = {"ff": 4, "padic": 9, "mpc": 3}


def decide(ctx, mode, plan, seed, procs=6):
    """plan: {config: number of requests}.  Every unfaithful outcome is a violation; a promised request that raises is tried again
    at other starting points and is a violation when none of them is served."""
    top = max(plan.values())
    reqs = generate(ctx, mode, top, seed)
    jobs = [(r, cfg, mode, [r["seed"]]) for cfg, c in plan.items() for r in reqs[:c]]
    recs = replay(ctx, jobs, procs)
    bad, sure, points = judge(ctx, recs)
    again = []
    for what, rec in bad:
        if what == "unfaithful":
            report(ctx, mode, what, rec)
        else:
            req = jobs[rec["key"]][0]
            again.append((req, rec["cfg"], mode, [req["seed"] + 7 * s for s in range(1, RETRY[rec["cfg"]])]))
    if again:
        recs2 = replay(ctx, again, procs)
        bad2, _, p2 = judge(ctx, recs2)
        points += p2
        for what, rec in bad2:
            report(ctx, mode, what, rec)
    fam = {}
    for r in recs:
        k = "+".join(r["fams"]) + " " + r["cfg"]
        a = fam.setdefault(k, [0, 0])
        a[0] += 1
        a[1] += r["succeeded"]
    ctx.notes.setdefault("outcomes", {})[mode] = {"requests": len(recs), "promised": sure, "points_judged": points, "retried": len(again),
                                                  "timeouts": sum(r["raised"] == "TIMEOUT" for r in recs),
                                                  "families_asked_served": {k: v for k, v in sorted(fam.items())}}
    return recs


def report(ctx, mode, what, rec):
    ctx.violation(f"{what}: {describe(rec)}", {k: v for k, v in rec.items()})


def judge(ctx, recs, chunk=400):
    sure = points = 0
    bad = []
    for c in range(0, len(recs), chunk):
        part = recs[c:c + chunk]
        path = scratch(f"limrec_{ctx.pid}_{c}.json")
        with open(path, "w") as f:
            json.dump([{k: v for k, v in r.items() if k not in ("strs", "raised", "fams", "cfg", "tcls", "id", "job")} for r in part], f)
        out, st = tlc("Limits", "SPECIFICATION Spec\nINVARIANT Judge\nINVARIANT Count\n", env={"LIN": path}, check=False)
        ctx.add_stats(st)
        import re
        miss = re.findall(r'<<\s*"MISS",\s*"(\w+)",\s*(\d+)\s*>>', out)
        s = re.findall(r'<<\s*"SURE",\s*(\d+),\s*(\d+)\s*>>', out)
        if st["rc"] != 0 or not s:
            raise common.MachineryError("Limits: TLC failed\n" + out[-3000:])
        sure += int(s[-1][0])
        points += int(s[-1][1])
        for what, key in miss:
            bad.append((what, recs[int(key)]))
    return bad, sure, points
