"""Writes MANIFEST.json from the table below (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = "TLA+ spec; TLC-generated behaviours replayed into the code"
TRC = "TLA+ spec; recorded code traces validated by TLC"
BOTH = "TLA+ spec; TLC-generated behaviours replayed, recorded traces validated by TLC"
CLAIMED = {
    "C06": (BOTH, "ConvGen.tla draws histories of field changes, relabellings, symbolic and numeric evaluations; TLC (Conv.tla) accepts or rejects every recorded step against one abstract point; sampled."),
    "C12": (BOTH, "LimitGen.tla draws slices (three constructions, constraints, parameter values); TLC (Slices.tla) decides the polynomial identities of every slice by grid evaluation; sampled over requests, exact in the parameter."),
    "C17": (BOTH, "IdealGen.tla draws ideals, membership questions and symmetries; TLC (Ideals.tla) judges generators, answers and images at points of the variety it has checked itself, and orbits exhaustively; sampled."),
    "C09": (BOTH, "LimitGen.tla draws requests over every built-in family (n=4..8), TLC judges every outcome (Limits.tla): exact mod m over finite fields and p-adic numbers, sizes of residuals for complex numbers; sampled."),
    "C10": (BOTH, "LimitGen.tla draws pairs of requests over the families (n=4..8), TLC judges every outcome (Limits.tla); sampled."),
    "C11": (BOTH, "LimitGen.tla draws varieties of one to three invariants (n=4..6) for the built-in and the algebraic solver, TLC judges every returned point (Limits.tla); sampled."),
    "C15": (BOTH, "Invs.tla states which invariants each family must contain and TLC checks the recorded lists (n=3..8, all options) and their values at TLC-drawn points; request histories in several processes."),
    "C04": (GEN, "Exact oracle (Expr.tla) over Z/46337 and Z/31^3 for seeded TLC-drawn points, index choices and clusters; sampled, not exhaustive."),
    "C05": (GEN, "Exact oracle (Expr.tla + Render.tla notations), seeded TLC-drawn expressions up to depth 3; sampled, not exhaustive."),
    "C01": (BOTH, "TLC-generated histories of generation requests replayed in six number fields; TLC validates the recorded points (exact mod m, magnitudes for complex numbers)."),
    "C02": (BOTH, "TLC-generated assignment histories; every representation recorded after every step and validated by TLC against Machine.tla."),
    "C03": (BOTH, "TLC-generated repair histories, exact expected spinors from Spinors.tla, frame conditions checked by TLC on the recording."),
    "C07": (BOTH, "TLC-generated histories with images and relabelled expressions; group laws hold in the model, the code's images are validated against it."),
    "C08": (BOTH, "TLC-generated clusterings (spin states, masses, aliases) validated against Machine.tla."),
    "C13": (BOTH, "TLC-generated histories over a store of objects; after each step TLC checks that nothing but the target changed (aliasing) and equality/hash answers."),
    "C14": (BOTH, "TLC-generated histories with diagnostics; the expected answers are computed by the specification."),
    "C19": (BOTH, "TLC-generated container histories including out-of-range positions."),
    "C16": ("TLA+ spec; protocol model-checked exhaustively, histories replayed with interruptions, recordings validated by TLC", "InvCache.tla: exhaustive protocol model; every interruption point of a request (kill / exception / pause with a concurrent request) plus TLC-drawn histories of requests, options, damage; lists compared with uncached computations."),
    "C18": (BOTH, "Seeds.tla draws request histories (seeded/unseeded points, varieties, slices, interleaved noise, processes); replayed in subprocesses, digests validated by TLC."),
    "C20": (TRC, "Symm.tla, exhaustive over small weight tuples; inverse/identity/full sets exhaustive for n<=5."),
    "C21": (BOTH, "TLC-generated histories with polarisation contractions; gauge laws checked as invariants of the model, values validated against it."),
    "C22": (BOTH, "TLC-generated arithmetic trees over stored momenta."),
    "C23": (BOTH, "Exports.tla draws points (signs, sizes, vanishing parts) and histories of exports and saves; TLC reads the produced text number by number and validates the recorded files; sampled."),
}
def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in CLAIMED:
            t, note = CLAIMED[i]
            checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                           "technique": t, "level": "model_checking", "level_note": note})
        else:
            na.append({"property": i, "reason": "check under construction"})
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
