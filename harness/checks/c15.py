"""C15: the generated lists of invariants (Invs.tla)."""
import itertools
import json
import os
import random
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

import common
from common import VERIF, import_lips, residue, scratch, tlc

M = 46337
CHAIN = re.compile(r"^([⟨\[])(\d)\|((?:\([\d+]+\)\|?|\d\|?)+)\|(\d)([⟩\]])$")


def parse(s):
    """A strict parser of the strings the lists may contain; anything else is <<"bad">>."""
    m = re.match(r"^⟨(\d)\|(\d)⟩$", s)
    if m:
        return ["ang", int(m[1]), int(m[2])]
    m = re.match(r"^\[(\d)\|(\d)\]$", s)
    if m:
        return ["sqr", int(m[1]), int(m[2])]
    m = re.match(r"^s_(\d+)$", s)
    if m:
        return ["s", [int(c) for c in m[1]]]
    m = re.match(r"^Δ_(\d{3})$", s)
    if m:
        return ["D3", [int(c) for c in m[1]]]
    m = re.match(r"^Δ_(\d+)\|(\d+)\|(\d+)$", s)
    if m:
        return ["D", [[int(c) for c in m[k]] for k in (1, 2, 3)]]
    m = re.match(r"^([ΩΠ])_(\d{3})$", s)
    if m:
        return ["Om" if m[1] == "Ω" else "Pi", [int(c) for c in m[2]]]
    m = re.match(r"^tr5_(\d{4})$", s)
    if m:
        return ["tr5", [[[1, int(c)]] for c in m[1]]]
    m = re.match(r"^([⟨\[])(\d)\|((?:\(\d(?:\+\d)+\)\|)+)(\d)([⟩\]])$", s)
    if m:
        mids = [[[1, int(x)] for x in re.findall(r"\d", t)] for t in m[3][:-1].split("|")]
        side = {"⟨": "A", "[": "S", "⟩": "A", "]": "S"}
        return ["chain", side[m[1]], int(m[2]), mids, side[m[5]], int(m[4])]
    return ["bad"]


def process(args):
    k, hashseed, reqs = args
    out, home = scratch(f"inv_{k}.json"), scratch(f"invhome_{k}")
    os.makedirs(home, exist_ok=True)
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), HOME=home, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(VERIF, "harness", "invproc.py"), common.REPO, out], input=json.dumps(reqs), text=True,
                       env=env, cwd=common.SCRATCH, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if not os.path.exists(out):
        raise common.LibraryError("requests for invariants failed: " + p.stderr[-800:])
    with open(out) as f:
        return json.load(f)


def key(n, o):
    return (n, o.get("no_hard_coded_ones", False), o.get("Restrict3Brackets", True), o.get("Restrict4Brackets", True), o.get("FurtherRestrict4Brackets", True))


def opts(no_hard=False, r3=True, r4=True, f4=True, no_cached=True):
    return {"no_cached": no_cached, "no_hard_coded_ones": no_hard, "Restrict3Brackets": r3, "Restrict4Brackets": r4, "FurtherRestrict4Brackets": f4}


def plan(ctx, rng):
    combos = [opts(*c) for c in itertools.product((False, True), repeat=4)]
    slow = {(6, False, r3, r4, f4) for r3 in (False, True) for r4, f4 in ((False, False), (False, True), (True, False))}
    base = [(n, o) for n in (3, 4, 5, 6) for o in combos if ctx.tier != "quick" or key(n, o) not in slow] + [(7, opts(nh, r3)) for nh in (False, True) for r3 in (False, True)] + [(7, opts(True, True, True, False))]
    base += ctx.pick([], [(7, opts(True, True, False, True))])
    procs = [(0, base)]
    for hs in ctx.pick((1, 2), (1, 2, 3, 4, 5, 6)):
        reqs = [(n, opts(no_cached=rng.random() < .5)) for n in (3, 4, 5, 6, 7)]
        reqs += [(n, dict(o, no_cached=rng.random() < .5)) for n, o in rng.sample(base, ctx.pick(12, 40))]
        rng.shuffle(reqs)
        procs.append((hs, reqs))
    if os.environ.get("C15_SMALL"):
        return procs
    procs.append((7, [(8, opts())]))
    procs.append((8, [(7, opts()), (8, opts(True)), (5, opts())]))
    procs += ctx.pick([], [(9, [(8, opts(r3=False))]), (10, [(8, opts(no_cached=False)), (8, opts(no_cached=False))])])
    return procs


def run(ctx):
    rng = random.Random(ctx.seed)
    procs = plan(ctx, rng)
    with ThreadPoolExecutor(6) as ex:
        answers = list(ex.map(process, [(k, hs, reqs) for k, (hs, reqs) in enumerate(procs)]))
    lips = import_lips()
    field = lips.Field("finite field", M, 1)
    points = {n: [lips.Particles(n, field=field, seed=ctx.seed * 100 + 10 * n + k) for k in range(3)] for n in range(3, 9)}
    quads = [[[[residue(x, M) for x in list(p.r_sp_d.flatten()) + list(p.l_sp_d.flatten())] for p in pt] for pt in points.get(n, [])] for n in range(1, 9)]
    recs, first, same, where = [], {}, [], []
    values, table, index = {}, [], {}
    for (hs, reqs), ans in zip(procs, answers):
        for (n, o), a in zip(reqs, ans):
            ctx.count("traces_validated_against_impl")
            k = key(n, o)
            if "error" in a:
                ctx.violation(f"request n={n} {o} raised {a['error']}", {"n": n, "opts": o})
                continue
            lists = [a["fams"][f] for f in sorted(a["fams"])] + [a["full"], a["fm4"], a["invN"]]
            # eight points: hard-coded three-brackets only exist at six points, so the two requests are one
            kk = k if n == 6 else (n, False) + k[2:]
            if kk in first:
                same.append({"what": f"n={n} {o} (process with hash seed {hs})", "ref": first[kk], "lists": lists})
                continue
            first[kk] = lists
            fams = []
            for f in ("2", "3", "4", "5", "s", "D", "O", "P", "tr5"):
                es = []
                for s in a["fams"][f]:
                    if (n, s) not in values:
                        try:
                            values[n, s] = [residue(points[n][0](s), M)]
                        except Exception:
                            values[n, s] = []
                        ctx.count("evaluations")
                    if (n, f, s) not in index:
                        table.append({"n": n, "f": f, "s": s, "e": parse(s), "v": values[n, s]})
                        index[n, f, s] = len(table)
                    es.append(index[n, f, s])
                fams.append({"name": f, "entries": es})
            recs.append({"n": n, "hard": not k[1], "r3": k[2], "r4": k[3], "f4": k[4], "fams": fams, "full": a["full"], "fm4": a["fm4"], "invN": a["invN"]})
            where.append((n, o))
    # judge, in parallel
    parts = [[x for x in range(len(recs)) if recs[x]["n"] in ns and recs[x]["r4"] in r4] for ns, r4 in
             (((3, 4, 5), (True, False)), ((6,), (True, False)), ((7,), (True,)), ((7,), (False,)), ((8,), (True, False)))]

    def judge(j):
        f, v = scratch(f"invs_{j}.json"), scratch(f"invs_{j}.out")
        used = sorted({e for x in parts[j] for fam in recs[x]["fams"] for e in fam["entries"]})
        new = {e: k + 1 for k, e in enumerate(used)}
        reqs = [dict(recs[x], fams=[{"name": fam["name"], "entries": [new[e] for e in fam["entries"]]} for fam in recs[x]["fams"]]) for x in parts[j]]
        with open(f, "w") as fh:
            json.dump({"m": M, "points": quads, "table": [table[e - 1] for e in used], "reqs": reqs, "same": same if j == 0 else []}, fh)
        _, st = tlc("Invs", cfg_text="SPECIFICATION Spec\nINVARIANT PointsOK\n", env={"TRACE": f, "VERDICT": v})
        with open(v) as fh:
            return st, json.load(fh)["bad"]

    with ThreadPoolExecutor(5) as ex:
        for j, (st, bad) in enumerate(ex.map(judge, range(5))):
            ctx.add_stats(st)
            for i, cl in bad:
                for what, which in cl:
                    if i <= len(parts[j]):
                        n, o = where[parts[j][i - 1]]
                        ctx.violation(f"{what}: {which} (n={n}, {o})", {"n": n, "opts": o, "entry": which})
                    else:
                        ctx.violation(f"{what}: {which}", {"request": which})
    ctx.notes["requests_judged"] = len(recs)
    ctx.notes["repeated_requests_compared"] = len(same)
    ctx.notes["entries_by_multiplicity"] = {n: len([1 for a, _ in values if a == n]) for n in points}
    ctx.sample({"n": 5, "default list": first.get((5, False, True, True, True), [None] * 12)[-3]})
