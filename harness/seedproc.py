"""One process of a Seeds.tla history: reads steps, prints the digests of the requested points."""
import hashlib
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402

NAMES = ["m_a", "m_b", "m_c", "m_d"]


def main():
    lips = common.import_lips()
    from lips import Field, Particle, Particles
    fields = {"ff": Field("finite field", 2 ** 31 - 1, 1), "padic": Field("padic", 10007, 3), "mpc": Field("mpc", 0, 300), "rational": Field("rational", 0, 0)}

    def dig(o):
        vals = [[repr(x) for x in a.flatten()] for p in o for a in (p.r_sp_d, p.l_sp_d, p.r2_sp) if a is not None]
        return hashlib.md5(json.dumps([vals, sorted((k, repr(v)) for k, v in o.internal_masses_dict.items())]).encode()).hexdigest()

    def request(r):
        s = None if r["seed"] < 0 else r["seed"]
        F = fields[r["field"]]
        if r["kind"] == "new":
            names = NAMES[:r["masses"]]
            return Particles(r["n"], field=F, seed=s, real_momenta=r["real"], internal_masses=(set(names) if r["coll"] == "set" else names) or None)
        if r["kind"] == "sing":
            inv = [("⟨1|2⟩",), ("⟨1|2⟩", "[1|2]")][r["extra"] if r["n"] > 4 else 0]
            if r["field"] == "padic":
                return Particles.from_singular_variety(r["n"], F, inv, tuple(1 for _ in inv), seed=s)
            return Particles.from_singular_variety(r["n"], F, inv, seed=s)
        o = Particles(r["n"], field=F, seed=99)
        ex = ("⟨1|2⟩",) if r["extra"] else ()
        if r["kind"] == "slice":
            o.univariate_slice(extra_constraints=ex, seed=s)
        elif r["kind"] == "slice2":
            o.bivariate_slice(seed=s)
        else:
            o.univariate_slice(seed=s, algorithm="generic")
        return o

    keep = Particles(5, field=fields["ff"])
    for st in json.load(open(sys.argv[1])):
        if st["kind"] == "disturb":
            w, a = st["what"], st["arg"]
            if w == "reseed":
                random.seed(a)
            elif w == "draw":
                [random.random() for _ in range(a)]
            elif w == "point":
                Particles(4 + a % 3, field=fields["ff"], seed=a)
            elif w == "eval":
                keep("⟨1|2⟩[2|3]")
            elif w == "fix":
                keep.fix_mom_cons()
            elif w == "rand":
                keep.randomise_all()
            elif w == "particle":
                Particle(field=fields["padic"])
            elif w == "mass":
                Particles(4, field=fields["ff"], internal_masses={"m_x", "m_y"})
            continue
        try:
            out = {"req": st, "dig": dig(request(st)), "st": "ok"}
        except Exception as e:
            out = {"req": st, "dig": "", "st": f"{type(e).__name__}: {e}"[:200]}
        print("REC " + json.dumps(out), flush=True)


main()
