"""Shared machinery: running TLC, projecting implementation values into the
specification's ring Z/m, writing evidence and violations."""
import atexit
import json
import math
import os
import shutil
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
REPO = os.environ.get("LIPS_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CMJAR = "/opt/veriftools/tla/CommunityModules-deps.jar"

# ---------------------------------------------------------------- scratch
SCRATCH = tempfile.mkdtemp(prefix="lipsverif_")
atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))


def scratch(name):
    return os.path.join(SCRATCH, name)


# ---------------------------------------------------------------- the library under test
def import_lips():
    """Import lips from the working tree (fresh bytecode, private HOME)."""
    home = scratch("home")
    os.makedirs(home, exist_ok=True)
    os.environ["HOME"] = home
    sys.dont_write_bytecode = True
    sys.pycache_prefix = scratch("pyc")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import lips
    assert os.path.realpath(lips.__file__).startswith(os.path.realpath(REPO) + os.sep), lips.__file__
    return lips


# ---------------------------------------------------------------- TLC
class MachineryError(Exception):
    pass


class LibraryError(Exception):
    """The library failed on a request the property promises to answer."""


_tlc_count = 0


def through_library(fn, *a):
    """Run fn in a worker process: exceptions that come out of the library keep that fact across the process boundary."""
    import traceback
    try:
        return fn(*a)
    except (MachineryError, LibraryError):
        raise
    except Exception as e:
        lib = os.path.realpath(REPO) + os.sep
        if any(os.path.realpath(f.filename).startswith(lib) for f in traceback.extract_tb(e.__traceback__)):
            raise LibraryError(f"unexpected {type(e).__name__}: {str(e)[:200]}\n" + traceback.format_exc()[-1500:])
        raise


def _java_cp():
    cp = [JAR]
    if os.path.exists(CMJAR):
        cp.append(CMJAR)
    d = os.path.dirname(JAR)
    for f in sorted(os.listdir(d)):
        if f.endswith(".jar") and os.path.join(d, f) not in cp:
            cp.append(os.path.join(d, f))
    return ":".join(cp)


def first_errors(out):
    """What TLC complained about, ahead of its (long) states."""
    k = out.find("Error:")
    return out[k:k + 2000] + "\n...\n" if k >= 0 else ""


def tlc(module, cfg_text="", env=None, extra=(), timeout=800, workers=1, heap="3g", check=True):
    """Run TLC on specs/<module>.tla with an inline configuration.  Returns (stdout, stats)."""
    global _tlc_count
    _tlc_count += 1
    tag = f"{module}_{os.getpid()}_{_tlc_count}"
    cfg = scratch(tag + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:CICompilerCount=2", "-cp", _java_cp(), "tlc2.TLC", "-workers", str(workers),
           "-deadlock", "-noGenerateSpecTE", "-metadir", scratch("meta_" + tag), "-config", cfg, *extra,
           os.path.join(SPECS, module + ".tla")]
    p = subprocess.run(cmd, env=e, cwd=SCRATCH, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    shutil.rmtree(scratch("meta_" + tag), ignore_errors=True)
    st = {"states": 0, "transitions": 0, "rc": p.returncode}
    for line in p.stdout.splitlines():
        if "states generated" in line and "distinct states found" in line and "left on queue" in line:
            w = line.replace(",", "").split()
            try:
                st["transitions"], st["states"] = int(w[0]), int(w[3])
            except ValueError:
                pass
    if check and p.returncode != 0:
        raise MachineryError(f"TLC failed on {module} (rc {p.returncode}):\n" + first_errors(p.stdout) + p.stdout[-4000:])
    return p.stdout, st


# ---------------------------------------------------------------- projection to Z/m
def sqrt_minus_one(m):
    p = m
    for q in (2, 3, 5, 7, 13, 17, 31, 29, 37, 199, 193):
        if m % q == 0 and m != q:
            p = q
            break
    if p % 4 != 1:
        return None
    g = 2
    while pow(g, (p - 1) // 2, p) != p - 1:
        g += 1
    r = pow(g, (p - 1) // 4, p)
    if p == m:
        return min(r, m - r)
    while (r * r + 1) % m:           # Hensel
        r = (r - (r * r + 1) * pow(2 * r, -1, m)) % m
    return min(r, m - r)


class NoProjection(Exception):
    """The value has no image in Z/m (denominator not invertible, unknown precision...)."""


def frac_mod(num, den, m):
    g = math.gcd(num, den) or 1
    num, den = num // g, den // g
    if math.gcd(den, m) != 1:
        raise NoProjection(f"{num}/{den} mod {m}")
    return num * pow(den, -1, m) % m


def mpf_to_fraction(x, bits=700):
    """Rational reconstruction of an mpf known to ~300 digits."""
    import mpmath
    if x == 0:
        return Fraction(0)
    if not mpmath.isfinite(x):
        raise NoProjection(str(x))
    sign, man, exp, _ = mpmath.mpf(x)._mpf_
    f = Fraction(int(man)) * (Fraction(2) ** int(exp))
    if sign:
        f = -f
    if abs(f) < Fraction(1, 10 ** 200):
        return Fraction(0)
    r = f.limit_denominator(10 ** 120)
    if abs(r - f) > abs(f) * Fraction(1, 10 ** 250) and abs(r - f) > Fraction(1, 10 ** 250):
        raise NoProjection("not a small rational: " + str(x)[:40])
    return r


def residue(v, m, im=None):
    """Project an implementation number to Z/m."""
    tn = type(v).__name__
    if isinstance(v, bool):
        raise NoProjection("bool")
    if isinstance(v, int):
        return v % m
    if isinstance(v, Fraction):
        return frac_mod(v.numerator, v.denominator, m)
    if tn == "ModP":
        if m % v.p:
            raise NoProjection(f"ModP {v.p} in Z/{m}")
        if v.p != m:
            raise NoProjection(f"ModP {v.p} in Z/{m}")
        return int(v.n) % m
    if tn == "PAdic":
        return padic_residue(v, m)
    if tn == "GaussianRational":
        if im is None:
            im = sqrt_minus_one(m)
        re_, im_ = residue(Fraction(v.real), m), residue(Fraction(v.imag), m)
        if im_ and im is None:
            raise NoProjection("imaginary part without i in the ring")
        return (re_ + (im or 0) * im_) % m
    if tn in ("mpf", "constant"):
        f = mpf_to_fraction(v)
        return frac_mod(f.numerator, f.denominator, m)
    if tn == "mpc":
        if im is None:
            im = sqrt_minus_one(m)
        a, b = mpf_to_fraction(v.real), mpf_to_fraction(v.imag)
        rb = frac_mod(b.numerator, b.denominator, m)
        if rb and im is None:
            raise NoProjection("imaginary part without i in the ring")
        return (frac_mod(a.numerator, a.denominator, m) + (im or 0) * rb) % m
    if isinstance(v, float):
        f = Fraction(v)
        return frac_mod(f.numerator, f.denominator, m)
    if isinstance(v, complex):
        if im is None:
            im = sqrt_minus_one(m)
        return (residue(v.real, m) + (im or 0) * residue(v.imag, m)) % m
    import numpy
    if isinstance(v, numpy.generic):
        return residue(v.item(), m, im)
    import sympy
    if isinstance(v, sympy.Basic):
        if v.is_Rational:
            return frac_mod(int(v.p), int(v.q), m)
        raise NoProjection("symbolic " + str(v)[:60])
    raise NoProjection(f"unsupported type {tn}")


def padic_residue(v, m):
    p = v.p
    k = 0
    q = 1
    while q < m:
        q *= p
        k += 1
    if q != m:
        raise NoProjection(f"PAdic p={p} in Z/{m}")
    # v = num * p^n + O(p^(n+k))
    if v.n + v.k < k:
        raise NoProjection(f"PAdic precision O({p}^{v.n + v.k})")
    if v.n < 0:
        raise NoProjection("negative valuation")
    return int(v.num) * p ** v.n % m


def residue_matrix(v, m, im=None):
    """Scalars become 1x1, 2d arrays stay 2d."""
    import numpy
    if isinstance(v, numpy.ndarray):
        if v.ndim != 2:
            raise NoProjection(f"array of shape {v.shape}")
        return [[residue(v[i, j], m, im) for j in range(v.shape[1])] for i in range(v.shape[0])]
    return [[residue(v, m, im)]]


# ---------------------------------------------------------------- glyphs
BOLD = dict(zip("0123456789", "𝟎𝟏𝟐𝟑𝟒𝟓𝟔𝟕𝟖𝟗"))
SUP = dict(zip("0123456789", "⁰¹²³⁴⁵⁶⁷⁸⁹"))
GLYPH = {"LA": "⟨", "RA": "⟩", "DELTA_": "Δ_", "OMEGA_": "Ω_", "PI_": "Π_", "d5": "δ5", "UMINUS": "−", "FRAC{": "\\frac{", "MUg": "μ_g"}


def glyphs(toks):
    out = []
    for t in toks:
        if t in GLYPH:
            out.append(GLYPH[t])
        elif len(t) > 1 and t[0] == "b" and t[1:].isdigit():
            out.append("".join(BOLD[c] for c in t[1:]))
        elif t.startswith("sup"):
            out.append("".join(SUP[c] for c in t[3:]))
        else:
            out.append(t)
    return "".join(out)


def mass_glyph(name):
    return GLYPH.get(name, name)


# ---------------------------------------------------------------- fields and points
def fields_for(m, want):
    """Implementation fields in which the ring Z/m can be represented."""
    from lips import Field
    res = {}
    base, k = prime_power(m)
    if "ff" in want and k == 1:
        res["ff"] = Field("finite field", m, 1)
    if "padic" in want and k > 1:
        res["padic"] = Field("padic", base, k + 3)
    if "rational" in want:
        res["rational"] = Field("rational", 0, 0)
    if "gaussian" in want:
        res["gaussian"] = Field("gaussian rational", 0, 0)
    if "mpc" in want:
        res["mpc"] = Field("mpc", 0, 300)
    return res


def prime_power(m):
    for p in range(2, int(m ** 0.5) + 1):
        if m % p == 0:
            k = 0
            while m > 1:
                m //= p
                k += 1
            return p, k
    return m, 1


def lift(x, m, fname, field, rng=None):
    """A representative of the residue x in an implementation field."""
    if fname == "ff":
        return field(x)
    if fname == "padic":
        from pyadic import PAdic
        return PAdic(x, field.characteristic, field.digits)
    if fname == "rational":
        return Fraction(x)
    if fname == "mpc":       # same lift as the rationals, whose exact results are the reference for multi-precision values
        import mpmath
        return mpmath.mpc(x, 0)
    im = sqrt_minus_one(m)
    b = rng.randrange(0, 5) if (rng is not None and im is not None) else 0
    a = (x - b * im) % m if b else x
    if fname == "gaussian":
        from pyadic import GaussianRational
        return GaussianRational(Fraction(a), Fraction(b))
    raise ValueError(fname)


def make_particle(lips, r, l, m, fname, field, rng=None):
    import numpy
    R = numpy.array([[lift(x, m, fname, field, rng) for x in row] for row in r], dtype=object)
    L = numpy.array([[lift(x, m, fname, field, rng) for x in row] for row in l], dtype=object)
    return lips.Particle((R, L), field=field)


def make_point(lips, base, m, fname, field, rng=None, masses=None):
    ps = [make_particle(lips, leg[0], leg[1], m, fname, field, rng) for leg in base]
    return lips.Particles(ps, field=field, fix_mom_cons=False, internal_masses=masses)


def spec_spins(spins):
    res = []
    for k, s in enumerate(spins):
        if s[0] != "none":
            res.append((k + 1, s[0], int(s[1]) if s[1] else all))
    return tuple(res) or None


# ---------------------------------------------------------------- projection of objects
REPS = ("r_sp_d", "l_sp_d", "r_sp_u", "l_sp_u", "r2_sp", "r2_sp_b", "four_mom", "four_mom_d")


def proj(v, m, im=None):
    """None -> [], array -> nested residues, failure -> string marker."""
    import numpy
    if v is None:
        return []
    try:
        if isinstance(v, numpy.ndarray):
            if v.ndim == 1:
                return [residue(x, m, im) for x in v]
            return [[residue(v[i, j], m, im) for j in range(v.shape[1])] for i in range(v.shape[0])]
        return residue(v, m, im)
    except NoProjection:
        return ["?"]


# ---------------------------------------------------------------- results
class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0}
        self.samples = []
        self.notes = {}
        self.violations = []
        self.known_hits = {}
        self.known = load_known(pid)
        self.quick = tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def add_stats(self, st):
        self.cov["states"] += st.get("states", 0)
        self.cov["transitions"] += st.get("transitions", 0)

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, what, data):
        """Record a violation: what = short description (stable), data = replayable description."""
        for k in self.known:
            if k.get("match") and k["match"] in what:
                self.known_hits.setdefault(k["match"], k)
                return
        self.violations.append({"what": what, "data": data})

    def sample(self, x, keep=6):
        if len(self.samples) < keep:
            self.samples.append(x)

    def elapsed(self):
        return time.time() - self.t0


def load_known(pid):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    with open(f) as fh:
        d = json.load(fh)
    return [k for k in d.get("known", []) if k["property"] == pid]


def _jsonable(o):
    return str(o)


def finish(ctx, level):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for k in ctx.known_hits.values():
        print(f"KNOWN-FINDING: property={ctx.pid} {k['what']}")
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level,
          "coverage": dict(ctx.cov, samples=ctx.samples[:6], **ctx.notes), "wall_s": round(ctx.elapsed(), 2),
          "violations": len(ctx.violations)}
    with open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=_jsonable)
    if ctx.violations:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{ctx.pid}.json")
        with open(path, "w") as f:
            json.dump({"property": ctx.pid, "seed": ctx.seed, "tier": ctx.tier, "violations": ctx.violations[:50]}, f, indent=1,
                      default=_jsonable, ensure_ascii=False)
        for v in ctx.violations[:8]:
            print("  - " + v["what"])
        print(f"VIOLATION property={ctx.pid} replay={path}")
        return 1
    print(f"OK property={ctx.pid} tier={ctx.tier} wall={ev['wall_s']}s coverage={json.dumps(ctx.cov)}")
    return 0
