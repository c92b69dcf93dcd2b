"""C23: exports describe the point (Exports.tla: generated histories of exports and saves in a scratch directory, recordings validated)."""
import decimal
import json
import os
import re
import shutil

from common import import_lips, scratch, tlc

REAL = r"[+-]?\s*(?:\d+\.?\d*|\.\d+)(?:\*\^[+-]?\d+)?"


class Unreadable(Exception):
    pass


CTX = decimal.Context(prec=400, Emax=10 ** 6, Emin=-10 ** 6)


def decimal_of(text):
    text = re.sub(r"\s", "", text)
    if not re.fullmatch(REAL, text):
        raise Unreadable(text[:60])
    return CTX.create_decimal(text.replace("*^", "e"))


def terms(d):
    """A decimal number as a sum of up to three terms of few digits far apart, each as mantissa and exponent."""
    out, few = [], decimal.Context(prec=25, Emax=10 ** 6, Emin=-10 ** 6)
    while d != 0:
        t = few.plus(d)
        d = CTX.subtract(d, t)
        sign, digs, x = t.as_tuple()
        n = int("".join(map(str, digs)))
        while n % 10 == 0:
            n, x = n // 10, x + 1
        if n >= 10 ** 9 or len(out) == 3:
            return [[0, 999]]
        out.append([-n if sign else n, x])
    return out


def rounded(d, digits):
    return decimal.Context(prec=digits, Emax=10 ** 6, Emin=-10 ** 6).plus(d)


def split_complex(text):
    """re + im I, either part optional, as a Mathematica reader would take it."""
    t = re.sub(r"\s", "", text)
    if t.startswith("(") and t.endswith(")"):
        t = t[1:-1]
    m = re.fullmatch(rf"({REAL})", t)
    if m:
        return m.group(1), "0"
    m = re.fullmatch(rf"({REAL})\*?I", t)
    if m:
        return "0", m.group(1)
    m = re.fullmatch(rf"({REAL})\+?({REAL})\*?I", t)
    if m and (m.group(2)[0] in "+-" or t[len(m.group(1))] == "+"):
        return m.group(1), m.group(2)
    raise Unreadable(text[:60])


def number(text, digits):
    return [terms(rounded(decimal_of(x), digits)) for x in split_complex(text)]


def vector(texts, digits):
    """Numbers of one vector: read to a precision relative to the largest one, as cancellations leave rounding noise."""
    zs = [[decimal_of(x) for x in split_complex(t)] for t in texts]
    top = max((abs(x) for z in zs for x in z), default=0)
    if top == 0:
        return [[[], []] for _ in zs]
    q = decimal.Decimal((0, (1,), top.adjusted() - digits))
    return [[terms(CTX.quantize(x, q)) for x in z] for z in zs]


def split_args(text):
    out, depth, cur = [], 0, ""
    for c in text:
        depth += c in "[{("
        depth -= c in "]})"
        if c == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return [x.strip() for x in out + [cur]]


def call(text, head):
    t = text.strip().rstrip(";").strip()
    if not (t.startswith(head + "[") and t.endswith("]")):
        raise Unreadable(t[:60])
    return split_args(t[len(head) + 1:-1])


def braces(text):
    t = text.strip()
    if not (t.startswith("{") and t.endswith("}")):
        raise Unreadable(t[:60])
    return split_args(t[1:-1])


def read_momenta(text, dps):
    out = []
    for line in text.splitlines():
        k, vec = call(line, "DeclareSpinorMomentum")
        comps = []
        for c in braces(vec):
            v, prec = call(c, "SetPrecision")
            if int(prec) > dps or int(prec) < 15:
                raise Unreadable("precision " + prec)
            comps.append(v)
        out.append([int(k)] + vector(comps, 200))
    return out


def read_spinors(text):
    out = []
    for line in text.splitlines():
        k, r, l = call(line, "DeclareSpinorMomentum")
        k = int(call(k, "Sp")[0])
        col = [braces(x) for x in braces(r)]
        row = [braces(x) for x in braces(l)]
        if [len(x) for x in col] != [1, 1] or [len(x) for x in row] != [2]:
            raise Unreadable(line[:80])
        out.append([k] + [number(x, 13) for x in (col[0][0], col[1][0], row[0][0], row[0][1])])
    return out


ASSIGN = re.compile(r"^\s*Subscript\[(?P<name>.*),\s*(?P<leg>\d+)\s*,\s*(?P<comp>\d+)\s*\]\s*=\s*(?P<val>[^=]*);\s*$")
NAMES = {r"\[Lambda]": 0, r"\!\(\*OverscriptBox[\(\[Lambda]\), \(_\)]\)": 2}


def read_file(text):
    vals = {}
    for line in text.splitlines():
        m = ASSIGN.match(line)
        if not m or m.group("name").strip() not in NAMES:
            raise Unreadable(line[:80])
        key = (int(m.group("leg")), NAMES[m.group("name").strip()] + int(m.group("comp")))
        if key in vals:
            raise Unreadable("assigned twice: " + line[:60])
        vals[key] = number(m.group("val"), 200)
    n = max([k for k, _ in vals] or [0])
    if set(vals) != {(k, c) for k in range(1, n + 1) for c in range(1, 5)}:
        raise Unreadable("components missing")
    return [[k] + [vals[k, c] for c in range(1, 5)] for k in range(1, n + 1)]


def build(lips, pt):
    import mpmath
    import numpy
    field = lips.Field("mpc", 0, 300)
    ps = []
    for g in pt:
        def z(x, e):
            u, v = mpmath.mpf(10) ** e, mpmath.mpf(10) ** (e - 40)
            return mpmath.mpc(x[0] * u + x[2] * v, x[1] * u + x[3] * v)
        r = numpy.array([[z(x, g["a"])] for x in g["r"]], dtype=object)
        l_ = numpy.array([[z(x, g["b"]) for x in g["l"]]], dtype=object)
        ps.append(lips.Particle((r, l_), field=field))
    return lips.Particles(ps, field=field, fix_mom_cons=False)


def listing():
    out = []
    for root, _, names in os.walk("."):
        for name in sorted(names):
            path = os.path.join(root, name)
            inside = os.path.normpath(root) == "phase_space_cache"
            with open(path, encoding="utf-8") as f:
                out.append({"name": name if inside else path, "text": read_file(f.read())})
    return out


def record(lips, script, folder):
    import mpmath
    from project import snapshot
    os.makedirs(folder)
    here = os.getcwd()
    os.chdir(folder)
    steps = []
    try:
        pts = [build(lips, pt) for pt in script["pts"]]
        glyph = {"LA": "⟨", "RA": "⟩"}
        for s in script["steps"]:
            o = pts[s["p"] - 1]
            rec = dict(s, st="ok", text=[], files=[], same=True)
            before = snapshot(o)
            try:
                if s["op"] == "save":
                    inv = "".join(glyph.get(t, t) for t in s["inv"])
                    o.save_phase_space_point(inv) if inv else o.save_phase_space_point()
                elif s["op"] == "mom":
                    rec["text"] = read_momenta(o.four_momenta_for_mathematica(), mpmath.mp.dps)
                else:
                    rec["text"] = read_spinors(o.four_momenta_for_mathematica(as_spinors=True))
                rec["files"] = listing()
            except Exception as e:
                rec["st"] = f"{type(e).__name__}: {e}"[:200]
            rec["same"] = snapshot(o) == before
            steps.append(rec)
    finally:
        os.chdir(here)
        shutil.rmtree(folder, ignore_errors=True)
    return steps


def run(ctx):
    lips = import_lips()
    _, st = tlc("Exports", cfg_text="SPECIFICATION ModelSpec\nINVARIANT Readable\n")
    ctx.add_stats(st)
    out = scratch("exports.json")
    for batch in range(ctx.pick(1, 8)):
        _, st = tlc("Exports", cfg_text="SPECIFICATION GenSpec\n", env={"GSEED": ctx.seed * 100 + batch, "GCOUNT": ctx.pick(40, 60), "GSTEPS": 12, "GOUT": out})
        ctx.add_stats(st)
        with open(out) as f:
            scripts = json.load(f)
        flat, where = [], []
        for q, s in enumerate(scripts):
            flat.append({"op": "begin"})
            where.append(None)
            for j, r in enumerate(record(lips, s, scratch(f"exports_{os.getpid()}_{q}"))):
                flat.append(dict(r, pts=s["pts"], st="ok" if r["st"] == "ok" else "failed"))
                where.append((q, j, r["st"]))
                ctx.count("exports")
        t, v = scratch("exports_tr.json"), scratch("exports_vd.json")
        with open(t, "w") as f:
            json.dump(flat, f)
        _, st = tlc("Exports", cfg_text="SPECIFICATION TraceSpec\n", env={"TRACE": t, "VERDICT": v})
        ctx.add_stats(st)
        with open(v) as f:
            for i, clauses in json.load(f):
                q, j, why = where[i - 1]
                step = scripts[q]["steps"][j]
                for c in clauses:
                    ctx.violation(f"{c}: {step} ({why})", {"script": scripts[q], "step": j, "why": why, "text": flat[i - 1]["text"][:3]})
        ctx.count("traces_validated_against_impl", len(scripts))
        ctx.sample({"points": [len(p) for p in scripts[0]["pts"]], "steps": scripts[0]["steps"][:4]})
