"""The binding tested against itself: recordings of real histories are accepted by MachineTrace.tla, and every
corruption of a recording (a stored component, a returned value, a lost or an invented change) is rejected.

usage: selftest.py [histories per profile]      (exit 1 if a corruption passes)"""
import copy
import json
import random
import sys

import common
import machine

FREE = {"new", "rand", "rand1", "twist", "fixr", "makep"}       # outcomes the specification leaves open: other consistent outcomes may be accepted


def numbers(x, path=()):
    if isinstance(x, bool):
        return
    if isinstance(x, int):
        if x >= 0:                  # negative: a component that has no image in Z/m
            yield path
    elif isinstance(x, list):
        for k, y in enumerate(x):
            yield from numbers(y, path + (k,))
    elif isinstance(x, dict):
        for k in sorted(set(x) - {"O", "Q"}):        # products formed by the recorder, only judged for plain legs
            yield from numbers(x[k], path + (k,))


def bump(x, path, m, rng):
    for k in path[:-1]:
        x = x[k]
    x[path[-1]] = (x[path[-1]] + 1 + rng.randrange(m - 1)) % m


def corruptions(trace, k, rng):
    """Corrupted versions of step k of a trace (the trace is cut after it)."""
    m = trace["m"]
    base = dict(trace, steps=trace["steps"][:k + 1])
    st = base["steps"][k]

    def with_(step):
        return dict(base, steps=base["steps"][:k] + [step])
    for what, part in (("stored component", "delta"), ("returned value", "ret")):
        src = [[d[1]["legs"] if isinstance(d[1], dict) and "legs" in d[1] else d[1]] for d in st["delta"]] if part == "delta" else st["ret"]["val"]
        paths = list(numbers(src))
        if paths:
            s = copy.deepcopy(st)
            src = [[d[1]["legs"] if isinstance(d[1], dict) and "legs" in d[1] else d[1]] for d in s["delta"]] if part == "delta" else s["ret"]["val"]
            bump(src, rng.choice(paths), m, rng)
            yield what, with_(s)
    if st["ret"]["txt"] in ("True", "False"):
        s = copy.deepcopy(st)
        s["ret"]["txt"] = "False" if st["ret"]["txt"] == "True" else "True"
        yield "answer", with_(s)
    if st["delta"]:
        if {d[0] for d in st["delta"]} <= {d[0] for t in base["steps"][:k] for d in t["delta"]}:
            s = copy.deepcopy(st)
            s["delta"] = []
            yield "lost change", with_(s)
        d = st["delta"][0][1]
        if isinstance(d, dict) and len(d.get("legs", [])) > 1 and d["legs"][0] != d["legs"][1]:
            s = copy.deepcopy(st)
            L = s["delta"][0][1]["legs"]
            L[0], L[1] = L[1], L[0]
            yield "exchanged legs", with_(s)
    earlier = [d for t in base["steps"][:k] for d in t["delta"] if isinstance(d[1], dict) and d[1].get("legs")]
    if earlier:
        h, obj = rng.choice(earlier)
        named = {st["op"].get("h"), st["op"].get("g")} | {d[0] for d in st["delta"]}
        if h not in named and len(obj["legs"]) > 1:
            s = copy.deepcopy(st)
            o = copy.deepcopy(obj)
            o["legs"] = o["legs"][1:]
            s["delta"].append([h, o])
            yield "invented change", with_(s)


def main(count):
    ctx = common.Ctx("C13", "quick", 1)
    lips = common.import_lips()
    rng = random.Random(7)
    m, fname, field, im = machine.config("ff")
    table, passed = {}, []
    for prof in ("C02", "C03", "C07", "C08", "C13", "C14", "C19", "C21", "C22"):
        scripts = machine.generate(ctx, prof, count, 10, 5, m, im)
        rec = machine.Recorder(lips, m, fname, field, im)
        traces = []
        for q, s in enumerate(scripts):
            random.seed(q)
            traces.append(rec.run(s))
        if machine.judge(ctx, traces):
            print("original recordings rejected", prof)
            return 1
        bad = []
        for t in traces:
            for k in range(len(t["steps"])):
                bad += [(what, t["steps"][k]["op"]["op"], c) for what, c in corruptions(t, k, rng)]
        verdict = {t for t, _, _ in machine.judge(ctx, [c for _, _, c in bad], chunk=40)}
        for x, (what, op, c) in enumerate(bad):
            e = table.setdefault(what, [0, 0])
            e[0] += 1
            if x in verdict:
                e[1] += 1
            elif op not in FREE and "[-1]" not in json.dumps(c["steps"]):     # spinors in an extension of the field are not judged
                passed.append((prof, what, op))
    print(json.dumps({"corruption: [made, rejected]": table}))
    for p in sorted(set(passed)):
        print("NOT REJECTED", p, passed.count(p))
    return 1 if passed else 0


if __name__ == "__main__":
    sys.exit(main(int(sys.argv[1]) if len(sys.argv) > 1 else 3))
