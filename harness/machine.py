"""Replaying histories of Machine.tla into the library, recording what is observable, and having TLC judge the recording."""
import copy
import hashlib
import io
import json
import contextlib
import os
import pickle
import random
from fractions import Fraction
from concurrent.futures import ThreadPoolExecutor

import mpmath
import numpy

import common
from common import GLYPH, NoProjection, fields_for, glyphs, import_lips, lift, residue, scratch, tlc, mass_glyph

INVARIANTS = "INVARIANTS CoherentStore RepairWorks PolLaws RealRepairMassless ClusterConserves RelabelLaw"
LABEL = {"rd": "|{}⟩", "ru": "⟨{}|", "ld": "[{}|", "lu": "|{}]"}
ATTR = {"rd": "r_sp_d", "ru": "r_sp_u", "ld": "l_sp_d", "lu": "l_sp_u", "P": "r2_sp", "Pb": "r2_sp_b", "p": "four_mom", "pd": "four_mom_d"}
MASSKEY = {mass_glyph(n): n for n in ("mt", "m_h", "M_W", "MUg")}
UNK = [[-1]]


def digest(v):
    if v is None:
        return ""
    return hashlib.md5("|".join(repr(x) for x in numpy.array(v, dtype=object).flatten()).encode()).hexdigest()[:12]


def library_i(field, m):
    """The library's square root of -1 in the field, 0 if there is none."""
    if field.name in ("finite field", "padic"):
        try:
            return residue(field(1) * 1j, m)
        except (ValueError, NoProjection):
            return 0
    if field.name == "mpc":
        return common.sqrt_minus_one(m) or 0
    return 0


def generate(ctx, prof, count, steps, seed, m, im, nmax=6, rational=False, small=0, chunk=10, mpc=False, nmin=3):
    """Histories from TLC, in parallel chunks."""
    jobs = []
    k = 0
    while k < count:
        jobs.append((min(chunk, count - k), seed * 977 + len(jobs)))
        k += chunk

    def one(job):
        c, sd = job
        f = scratch(f"hist_{prof}_{m}_{sd}_{int(rational)}_{nmin}.json")
        _, st = tlc("MachineGen", cfg_text="SPECIFICATION Spec\n" + INVARIANTS + "\n",
                    env={"GPROF": prof, "GCOUNT": c, "GSTEPS": steps, "GSEED": sd, "GOUT": f, "GMOD": m, "GIM": im, "GNMAX": nmax, "GNMIN": nmin,
                         "GSMALL": small, "GRAT": int(rational), "GMPC": int(mpc)})
        with open(f) as fh:
            d = json.load(fh)
        os.remove(f)
        return d, st

    out = []
    with ThreadPoolExecutor(4) as ex:
        for d, st in ex.map(one, jobs):
            ctx.add_stats(st)
            out += d
    return out


class Recorder:
    def __init__(self, lips, m, fname, field, im):
        self.lips, self.m, self.fname, self.field, self.im = lips, m, fname, field, im
        self.memo = {}

    # ---- observation
    def num(self, v):
        key = None
        if type(v).__name__ == "mpc":
            key = v._mpc_
        elif type(v).__name__ in ("mpf", "Fraction"):
            key = (v._mpf_ if type(v).__name__ == "mpf" else v)
        if key is not None and key in self.memo:
            r = self.memo[key]
            if r is None:
                raise NoProjection
            return r
        try:
            r = residue(v, self.m, self.im or None)
        except NoProjection:
            if key is not None:
                self.memo[key] = None
            raise
        if key is not None:
            self.memo[key] = r
        return r

    def mat(self, v):
        if v is None:
            return []
        try:
            if not isinstance(v, numpy.ndarray):
                return [[self.num(v)]]
            if v.ndim == 0:
                return [[self.num(v.item())]]
            if v.ndim == 1:
                return [[self.num(x) for x in v]]
            return [[self.num(x) for x in row] for row in v]
        except (NoProjection, TypeError, ValueError):
            return UNK

    def vec(self, v):
        if v is None:
            return []
        try:
            return [self.num(x) for x in v]
        except (NoProjection, TypeError, ValueError):
            return [-1]

    def leg(self, p):
        g = {k: self.mat(getattr(p, ATTR[k], None)) for k in ("rd", "ld", "ru", "lu", "P", "Pb")}
        res = {"r": g["rd"], "l": g["ld"], "ru": g["ru"], "lu": g["lu"], "P": g["P"], "Pb": g["Pb"],
               "p": self.vec(getattr(p, "four_mom", None)), "pd": self.vec(getattr(p, "four_mom_d", None))}
        res["O"] = res["Q"] = []
        r, l, ru, lu = p.r_sp_d, p.l_sp_d, p.r_sp_u, p.l_sp_u
        try:
            if r is not None and l is not None and r.shape == (2, 1) and l.shape == (1, 2):
                res["O"] = self.mat(r @ l)
            if ru is not None and lu is not None and ru.shape == (1, 2) and lu.shape == (2, 1):
                res["Q"] = self.mat(lu @ ru)
        except Exception:
            pass
        res["sp"] = getattr(p, "spin_index", ("none",))[0]
        if self.fname in ("mpc", "padic"):          # values outside Z/m are still comparable
            res["dr"], res["dl"], res["dP"] = (digest(getattr(p, a)) for a in ("r_sp_d", "l_sp_d", "r2_sp"))
        else:
            res["dr"] = res["dl"] = res["dP"] = ""
        return res

    def magnitudes(self, o):
        """Decimal exponents (floor of log10, Z for zero) of what should vanish at a complex point."""
        def ex(vals):
            vals = [abs(mpmath.mpc(v)) for v in vals]
            if not all(mpmath.isfinite(v) for v in vals):
                return 9999
            v = max(vals, default=0)
            return -99999 if v == 0 else int(mpmath.floor(mpmath.log10(v)))

        def diff(a, b):
            if a is None or b is None:
                return []
            a, b = numpy.array(a, dtype=object).flatten(), numpy.array(b, dtype=object).flatten()
            return [mpmath.mpf(10) ** 50] if len(a) != len(b) else list(a - b)
        coh = []
        for p in o:
            if p.r_sp_d is not None and p.r_sp_d.shape == (2, 1) and p.l_sp_d is not None and p.l_sp_d.shape == (1, 2):
                coh += diff(p.r_sp_d @ p.l_sp_d, p.r2_sp_b) + diff(p.l_sp_u @ p.r_sp_u, p.r2_sp)
                coh += diff([p.r_sp_u[0, 0], p.r_sp_u[0, 1]], [p.r_sp_d[1, 0], -p.r_sp_d[0, 0]])
                coh += diff([p.l_sp_u[0, 0], p.l_sp_u[1, 0]], [p.l_sp_d[0, 1], -p.l_sp_d[0, 0]])
            q, B = p.four_mom, p.r2_sp_b
            if q is not None and q[0] is not None:
                coh += diff(q, [(B[0, 0] + B[1, 1]) / 2, (B[0, 1] + B[1, 0]) / 2, 1j * (B[0, 1] - B[1, 0]) / 2, (B[0, 0] - B[1, 1]) / 2])
                coh += diff(p.four_mom_d, [q[0], -q[1], -q[2], -q[3]])
            P = p.r2_sp
            coh += diff([P[1, 1], -P[0, 1], -P[1, 0], P[0, 0]], [B[0, 0], B[0, 1], B[1, 0], B[1, 1]])
        tot = sum(p.r2_sp for p in o)
        return {"mom": ex(tot.flatten()), "mass": ex([p.r2_sp[0, 0] * p.r2_sp[1, 1] - p.r2_sp[0, 1] * p.r2_sp[1, 0] for p in o]),
                "im": ex([mpmath.im(x) for p in o for x in p.four_mom]), "coh": ex(coh),
                "tol": int(mpmath.floor(mpmath.log10(self.field.tollerance)))}

    def denominator(self, o, op):
        """Decimal exponent of the smallest quantity the repair divides by."""
        n = len(o)
        vals = []
        if op["op"] == "fixr":
            K = sum(o[k].four_mom for k in range(1, n + 1) if k not in (op["i"], op["j"]))
            vals = [K[0] - K[op["axis"]]]
        else:
            pairs = [(op["i"], op["j"])] if op["op"] == "fix" else [(a, b) for a in range(1, n + 1) for b in range(a + 1, n + 1)]
            for a, b in pairs:
                x, y = (o[a].l_sp_d, o[b].l_sp_d) if op["axis"] == 1 else (o[a].r_sp_d, o[b].r_sp_d)
                if x is None or y is None:
                    return -9999
                x, y = x.flatten(), y.flatten()
                vals.append(x[0] * y[1] - x[1] * y[0])
        v = min(abs(mpmath.mpc(x)) for x in vals)
        return -9999 if v == 0 else int(mpmath.floor(mpmath.log10(v)))

    def intypes(self, o):
        """All components belong to the field: FALSE if some component has another type."""
        one = self.field(1)
        ok = {"ff": lambda x: type(x) is type(one) and x.p == one.p, "padic": lambda x: type(x) is type(one) and x.p == one.p,
              "mpc": lambda x: type(x).__name__ in ("mpc", "mpf"), "rational": lambda x: isinstance(x, Fraction)}[self.fname]
        return all(ok(x) for p in o for a in (p.r_sp_d, p.l_sp_d, p.r_sp_u, p.l_sp_u, p.r2_sp, p.r2_sp_b) if a is not None for x in a.flatten())

    def obj(self, o):
        if isinstance(o, self.lips.Particle):
            return {"kind": "P", "legs": [self.leg(o)], "ms": [], "ref": [], "fld": repr(o.field)}
        ms = []
        for name, v in sorted(o.internal_masses_dict.items()):
            nm = MASSKEY.get(name, name)
            if isinstance(v, str):
                ms.append([nm, "e", [int(c) for c in v.lstrip("sS_")]])
            else:
                try:
                    ms.append([nm, "v", [self.num(v)]])
                except NoProjection:
                    ms.append([nm, "v", [-1]])
        return {"kind": "Ps", "legs": [self.leg(p) for p in o], "ms": ms, "ref": self.leg(o.oRefVec), "fld": repr(o.field)}

    def extra(self, S, op, ret):
        """Observations on the target of generating and repairing operations."""
        if op["op"] in ("new", "rand", "rand1", "twist", "fix", "fix0", "fixr") and ret["st"] == "ok":
            o = S[op["h"]]
            ret["types"] = self.intypes(o)
            if self.fname == "mpc":
                ret["mag"] = self.magnitudes(o)

    # ---- construction of data
    def lift(self, x):
        """Residues of small integers are lifted to those integers in fields of characteristic 0."""
        if self.fname != "ff" and 2 * x > self.m:
            x -= self.m
        return lift(x, self.m, self.fname, self.field)

    def half(self, x):
        """Residues of small half-integers."""
        if self.fname == "ff":
            return self.field(x)
        y = 2 * x % self.m
        return self.lift(y) / 2

    def arr(self, v):
        if v and isinstance(v[0], list):
            return numpy.array([[self.lift(x) for x in row] for row in v], dtype=object)
        if self.fname == "ff" or not self.im:
            return numpy.array([self.lift(x) for x in v], dtype=object)
        # a four-momentum of integer spinors: half-integers, imaginary second component
        i = 1j if self.fname == "mpc" else self.field(1j)
        return numpy.array([self.half(v[0]), self.half(v[1]), self.half(v[2] * pow(self.im, -1, self.m)) * i, self.half(v[3])], dtype=object)

    def low_precision(self, o):
        """p-adic digits were lost: the library's fixed tolerance does not apply."""
        if self.fname != "padic":
            return False
        vals = [x for p in o for a in (p.r2_sp, p.r_sp_d, p.l_sp_d) if a is not None for x in a.flatten()]
        return any(getattr(x, "n", 0) + getattr(x, "k", 10**9) < self.field.digits for x in vals)

    def particle(self, leg):
        return self.lips.Particle((self.arr(leg[0]), self.arr(leg[1])), field=self.field)

    def masses(self, ms):
        res = {}
        for name, kind, v in ms:
            res[mass_glyph(name)] = ("s_" + "".join(map(str, v))) if kind == "e" else self.lift(v[0])
        return res

    def tree(self, S, t):
        k = t[0]
        if k == "leg":
            o = S[t[1]]
            return o if isinstance(o, self.lips.Particle) else o[t[2]]
        if k == "add":
            return self.tree(S, t[1]) + self.tree(S, t[2])
        if k == "sub":
            return self.tree(S, t[1]) - self.tree(S, t[2])
        if k == "neg":
            return -self.tree(S, t[1])
        if k == "mul":
            return self.tree(S, t[1]) * t[2]
        if k == "rmul":
            return t[2] * self.tree(S, t[1])
        if k == "div":
            return self.tree(S, t[1]) / t[2]
        if k == "add0":
            return self.tree(S, t[1]) + 0
        if k == "radd0":
            return 0 + self.tree(S, t[1])
        if k == "sub0":
            return self.tree(S, t[1]) - 0
        if k == "sum":
            return sum([self.tree(S, x) for x in t[1]])
        raise ValueError(k)

    # ---- one operation
    def perform(self, S, op):
        L = self.lips
        k = op["op"]
        h = S.get(op["h"]) if "h" in op else None
        ret = {"st": "ok", "txt": "", "val": []}
        if k == "make":
            S[op["h"]] = L.Particles([self.particle(x) for x in op["legs"]], field=self.field, fix_mom_cons=False,
                                     internal_masses=self.masses(op["ms"]) or None)
        elif k == "makep":
            S[op["h"]] = L.Particles([L.Particle(self.arr(v), field=self.field) for v in op["vals"]], field=self.field, fix_mom_cons=False)
        elif k == "new":
            names = [mass_glyph(x) for x in op["names"]]
            names = {0: set(names), 1: names, 2: tuple(names)}[op.get("coll", 0)]
            S[op["h"]] = L.Particles(op["n"], field=self.field, internal_masses=names or None, real_momenta=op["real"])
        elif k == "copy":
            S[op["g"]] = h.copy()
        elif k == "deepcopy":
            S[op["g"]] = copy.deepcopy(h)
        elif k == "pickle":
            S[op["g"]] = pickle.loads(pickle.dumps(h))
        elif k == "image":
            perm = "".join(map(str, op["perm"]))
            S[op["g"]] = h.image(perm) if (not op["par"] and not op["asrule"]) else h.image((perm, op["par"]))
        elif k == "afs":
            h.angles_for_squares()
        elif k == "imgeval":
            ret["val"] = self.mat(h.image(("".join(map(str, op["perm"])), op["par"]))(glyphs(op["toks"])))
        elif k == "cluster":
            sp = common.spec_spins(op["spins"])
            S[op["g"]] = h.cluster([list(c) for c in op["corners"]], massive_fermions=sp)
        elif k == "arith":
            r = self.tree(S, op["tree"])
            S[op["g"]] = r if op["tree"][0] != "leg" else copy.deepcopy(r)
        elif k == "set":
            setattr(h[op["i"]], ATTR[op["rep"]], self.arr(op["val"]))
            back = getattr(h[op["i"]], ATTR[op["rep"]])
            ret["val"] = self.vec(back) if op["rep"] in ("p", "pd") else self.mat(back)
        elif k == "poke":                           # in place, as the library's own substitution of symbols does
            o = h if isinstance(h, L.Particle) else h[op["i"]]
            a = getattr(o, ATTR[op["rep"]])
            a[(op["comp"] - 1, 0) if op["rep"] == "rd" else (0, op["comp"] - 1)] = self.lift(op["val"])
            setattr(o, ATTR[op["rep"]], a)
        elif k == "refset":
            h.oRefVec.r_sp_d = self.arr(op["leg"][0])
            h.oRefVec.l_sp_d = self.arr(op["leg"][1])
        elif k == "lset":
            h[LABEL[op["rep"]].format(op["i"])] = self.arr(op["val"])
        elif k == "lget":
            ret["val"] = self.mat(h[LABEL[op["rep"]].format(op["i"])])
        elif k == "get":
            ret["val"] = self.mat(h[str(op["i"]) if op.get("as") == "label" else op["i"]].r2_sp)
        elif k == "slice":
            part = h[op["lo"]:op["hi"]:op["st"]] if op["st"] > 1 else h[op["lo"]:op["hi"]]
            ret["val"] = [self.vec(p.r2_sp.flatten()) for p in part]
            ret["rest"] = [part.multiplicity, int(isinstance(part, L.Particles) and part.field == h.field)]
        elif k == "comp":
            ret["val"] = self.mat(h[op["i"]][op["mu"]])
        elif k == "seti":
            h[op["i"]] = self.particle(op["leg"])
        elif k == "ins":
            h.insert(op["i"], self.particle(op["leg"]))
        elif k == "del":
            del h[op["i"]]
        elif k == "fix":
            h.fix_mom_cons(op["i"], op["j"], axis=op["axis"])
        elif k == "fix0":
            h.fix_mom_cons(axis=op["axis"])
        elif k == "fixr":
            h.fix_mom_cons(op["i"], op["j"], real_momenta=True, axis=op["axis"])
        elif k == "rand":
            h.randomise_all(real_momenta=op["real"])
        elif k == "rand1":
            h[op["i"]].randomise()
        elif k == "twist":
            h.randomise_twistor()
        elif k == "eval":
            ret["val"] = self.mat(h(glyphs(op["toks"])))
        elif k in ("mcc", "osc"):
            f = h.momentum_conservation_check if k == "mcc" else h.onshell_relation_check
            ret["val"] = [[int(bool(f()))]]
        elif k == "pcc":
            given = [glyphs(t) for t in op["toks"]]
            names = given or [glyphs(t) for t in op["alltoks"]]
            arg = list(given)
            r = h.phasespace_consistency_check(arg) if given else h.phasespace_consistency_check()
            ret["val"] = [[int(bool(r[0])), int(bool(r[1]))]]
            ret["big"] = [names.index(x) + 1 if x in names else 0 for x in r[2]]
            ret["small"] = [j for x in r[3] for j in ([q + 1 for q, y in enumerate(names) if y == x] or [0])]
            ret["argchanged"] = arg != given
        elif k == "eq":
            ret["val"] = [[int(bool(h == S[op["g"]]))]]
            if bool(h == S[op["g"]]) == bool(h != S[op["g"]]):
                ret["val"] = [[2]]
        elif k == "hash":
            ret["val"] = [[int(hash(h) == hash(S[op["g"]]))]]
        elif k == "ldot":
            ret["val"] = self.mat(h.ldot(op["i"], op["j"]))
        elif k == "m2":
            ret["val"] = [[self.num(x) for x in h.m2s]]
        elif k == "mass":
            ret["val"] = [[self.num(x * x) for x in h.ms]]
        elif k == "totmom":
            ret["val"] = self.mat(h.total_mom)
        elif k == "show":
            repr(h), str(h), len(h), h.multiplicity
        elif k == "compl":
            labs = [str(x) for x in op["labs"]] if op["kind"] == "str" else list(op["labs"])
            ret["val"] = [[int(x) for x in h._complementary(labs)]]
        elif k == "nol":
            ret["val"] = h.ijk_to_3NonOverlappingLists(list(op["ijk"]))
        elif k == "conv":
            L.spinor_convention = op["name"]
        elif k == "setref":
            h.oRefVec = self.particle(op["leg"])
        elif k == "polar":
            hc = [{"+": "+p", "-": "-m"}[x][y] for x, y in zip(op["hel"], op["note"])]
            h.helconf = {"str": "".join, "list": list, "tuple": tuple}[op["form"]](hc)
            r = getattr(h, op["what"])(op["i"], op["j"])
            ret["val"] = self.mat(r * mpmath.sqrt(2) if op["what"] != "ee" else r)
        elif k == "setm":
            (name, v), = self.masses([op["mass"]]).items()
            setattr(h, name, v)
        elif k == "tofield":
            h.to_field(self.field)
        else:
            raise common.MachineryError("unknown op " + k)
        return ret

    def run(self, script, resume=False):
        """After an exception the history ends, or (resume) goes on with the next object made."""
        S, last, steps = {}, {}, []
        skip = False
        self.lips.spinor_convention = "symmetric"
        try:
            for op in script:
                skip = skip and op["op"] not in ("make", "makep")
                if skip:
                    continue
                if op["op"] in ("mcc", "osc", "pcc") and self.low_precision(S[op["h"]]):
                    op = {"op": "show", "h": op["h"]}
                if op["op"] == "pcc" and self.fname in ("rational", "mpc"):        # thresholds in magnitude: see Diag.tla
                    op = {"op": "show", "h": op["h"]}
                with contextlib.redirect_stdout(io.StringIO()):
                    try:
                        before = self.magnitudes(S[op["h"]])["im"] if self.fname == "mpc" and op["op"] == "fixr" else 0
                        den = self.denominator(S[op["h"]], op) if self.fname == "mpc" and op["op"] in ("fix", "fix0", "fixr") else 0
                        ret = self.perform(S, op)
                        self.extra(S, op, ret)
                        if "mag" in ret:
                            ret["mag"]["imbefore"] = before
                            ret["mag"]["den"] = den
                    except common.MachineryError:
                        raise
                    except NoProjection:
                        ret = {"st": "ok", "txt": "", "val": UNK}
                    except Exception as e:
                        ret = {"st": "raise", "txt": type(e).__name__, "val": [], "msg": str(e)[:200]}
                delta = []
                for hh in sorted(S):
                    try:
                        o = self.obj(S[hh])
                    except common.MachineryError:
                        raise
                    except Exception as e:          # an object that can no longer be read has changed
                        o = dict(last[hh], kind="unreadable: " + type(e).__name__) if hh in last else None
                        if o is None:
                            raise
                    if last.get(hh) != o:
                        delta.append([hh, o])
                        last[hh] = o
                steps.append({"op": op, "ret": ret, "delta": delta})
                if ret["st"] == "raise" and op["op"] not in ("get", "seti", "ins", "del"):
                    if not resume:
                        break
                    skip = True
        finally:
            self.lips.spinor_convention = "symmetric"
        return {"m": self.m, "im": self.im, "small": common.prime_power(self.m)[0], "field": self.fname, "soft": self.fname in ("padic", "mpc"), "steps": steps}


def judge(ctx, traces, chunk=12):
    """TLC decides whether the recordings are behaviours of Machine.tla.  Returns [(trace, step, clause)]."""
    chunks = [(k, traces[k:k + chunk]) for k in range(0, len(traces), chunk)]

    def one(job):
        k, ts = job
        f, v = scratch(f"tr_{id(ts)}.json"), scratch(f"vd_{id(ts)}.json")
        with open(f, "w") as fh:
            json.dump(ts, fh)
        _, st = tlc("MachineTrace", cfg_text="SPECIFICATION Spec\n", env={"TRACE": f, "VERDICT": v})
        with open(v) as fh:
            bad = json.load(fh)
        os.remove(f)
        os.remove(v)
        return [(k + t - 1, i - 1, c) for t, i, cs in bad for c in cs], st

    res = []
    with ThreadPoolExecutor(4) as ex:
        for r, st in ex.map(one, chunks):
            ctx.add_stats(st)
            res += r
    return res


CONFIGS = {  # name -> (modulus, field)
    "ff": (46337, "ff"), "ff3": (46327, "ff"), "padic": (29791, "padic"), "padic1": (24389, "padic"),
    "rational": (46337, "rational"), "mpc": (46337, "mpc"),
    "f3": (3, "ff"), "f5": (5, "ff"), "f7": (7, "ff"), "f13": (13, "ff"),
}


def config(cfg):
    m, fname = CONFIGS[cfg]
    field = fields_for(m, (fname,))[fname]
    return m, fname, field, library_i(field, m)


def check(ctx, prof, plan, steps=12, nmax=6, tags=None, extra_scripts=None, nmin=3):
    """plan: {config: number of histories}.  Only clauses tagged with one of `tags` (default: prof) count."""
    lips = import_lips()
    tags = tags or (prof,)
    total = {}
    for cfg, count in plan.items():
        m, fname, field, im = config(cfg)
        scripts = generate(ctx, prof, count, steps, ctx.seed, m, im, nmax=nmax, rational=(fname == "rational"), small=0 if fname == "ff" else 40, mpc=(fname == "mpc"), nmin=nmin)
        if extra_scripts:
            scripts += extra_scripts(cfg, m, im)
        rec = Recorder(lips, m, fname, field, im)
        traces = []
        for q, s in enumerate(scripts):
            random.seed(ctx.seed * 100003 + q)
            traces.append(rec.run(s))
        for cl in judge(ctx, traces):
            t, i, c = cl
            total[c] = total.get(c, 0) + 1
            if c.split(":")[0] in tags:
                st = traces[t]["steps"][i]
                brief = {k: v for k, v in st["op"].items() if k in ("op", "h", "g", "i", "j", "rep", "axis", "perm", "par", "corners", "spins", "tree")}
                ctx.violation(f"{c} [{cfg}] after {brief}" + (f" ({st['ret'].get('msg')})" if st["ret"]["st"] == "raise" else ""),
                              {"config": cfg, "clause": c, "script": [s["op"] for s in traces[t]["steps"][:i + 1]], "ret": st["ret"]})
        ctx.count("traces_validated_against_impl", len(traces))
        ctx.count("operations", sum(len(t["steps"]) for t in traces))
        for t in traces[:2]:
            ctx.sample({"config": cfg, "ops": [s["op"]["op"] for s in t["steps"]]})
        for t in traces:
            for st in t["steps"]:
                key = f"{cfg}{'' if nmin == 3 else ' n>=' + str(nmin)}"
                ctx.notes.setdefault("operations_by_kind", {}).setdefault(key, {}).setdefault(st["op"]["op"], 0)
                ctx.notes["operations_by_kind"][key][st["op"]["op"]] += 1
    ctx.notes.setdefault("clauses_failed_any_property", {}).update(total)
    return total
