"""What each check runs, and what its evidence says."""
import os

ENGINE_QUICK_S = 25
ENGINE_PROCS = 6
KANI_QUICK_S = 420

TRUSTED = [
    "rustc, Kani 0.68 and CBMC 6.11 (MIR to goto translation, bit-precise memory model), CaDiCaL",
    "std's collections, allocator and slice algorithms, executed or modelled as Kani ships them",
    "the composition argument in DESIGN.md that lifts one node's contract to the whole tree (by hand, induction over height)",
]
ASSUME = [
    "node-size parameter M fixed to the values named per obligation (contracts are complete for each of them)",
    "slice and index types obey their documented laws, except where an obligation lets them misbehave",
    "leaks are ignored inside single-function obligations; the stand-in counts them",
    "no concurrency",
]

VERUS_TRUSTED = ["Verus and Z3", "the extraction in tools/verus_layer.py: items cut from /repo by name on every run, attributes and doc comments dropped, contracts inserted, the listed rewrites applied"]
VERUS_ASSUME = ["in the Verus obligations, index arithmetic is mathematical and lawful, cells' contents and destructors are unspecified"]
VERUS_EXPL = (" The obligations named verus:* are discharged by Verus on functions extracted mechanically from the working tree on this run, "
              "for every input, node size and height, given the contracts listed under assumptions.")

ALL4 = ["en", "ef", "ec", "er"]
def p(bins, ex_quick=5, ex_thorough=7, level="other", explanation="", **k):
    d = dict(bins=bins, ex_quick=ex_quick, ex_thorough=ex_thorough, level=level, explanation=explanation or EXPL)
    d.update(k)
    return d
EXPL = ("Function contracts on the real code, discharged by Kani/CBMC for every input within the stated node-size bound; "
        "the composition over whole histories is supported by a bounded stand-in (histories against a list model), which also searches for a failing input when an obligation fails.")

PROPS = {
    "C01": p(ALL4), "C02": p(ALL4), "C03": p(ALL4), "C04": p(ALL4, 4, 6), "C05": p(ALL4), "C06": p(ALL4, 4, 6), "C07": p(ALL4),
    "C08": p(["er"]), "C09": p(["er"], 4, 6), "C10": p(["ec"]), "C11": p(["en", "ef"]), "C12": p(ALL4), "C13": p(ALL4, 0, 0),
    "C14": p(ALL4), "C15": p(["ed"]), "C16": p(["eg"], 0, 0, level="proof", explanation="Every function of the range module against a denotational specification, for every pair of bounds: discharged by Verus for every totally ordered type, and again by CBMC on the unextracted code over the full domain of u8, which realises every ordering of the at most six values involved.",
             rule="every pair of ranges over five values, in every notation, through the public interface", assume_only=["u8 stands for every totally ordered type: the code is generic and only compares (parametricity)", "the exhausted state of a RangeInclusive iterator is outside the notation"],
             note="Complete for the module: contracts over all bounds and kinds, discharged by Verus for every lawful Ord type and by CBMC on the code in place over u8."),
    "C17": p(["en", "ec", "er", "ed"]), "C18": p(["er"]), "C22": p(["em"]), "C23": p(["er"], 4, 6), "C24": p(["en", "ec", "er"]),
}

def known_findings():
    """KNOWN_FINDINGS.md: lines `- finding: property=C01 probe=three-way-join | text`."""
    out = []
    for line in open(os.path.join(os.path.dirname(__file__), "..", "KNOWN_FINDINGS.md")):
        if line.startswith("- finding: "):
            head, text = line[len("- finding: "):].split(" | ", 1)
            d = dict(x.split("=", 1) for x in head.split())
            d["text"] = text.strip()
            out.append(d)
    return out

NOTE = ("Contracts on the functions named in the evidence are discharged for every input, for each node-size parameter named there (bounded in M); "
        "obligations named verus:* hold for every node size and height, on text extracted from the working tree on each run; everything between those functions and the property is a hand composition argument plus a bounded stand-in over histories, labelled as such.")
NOT_APPLICABLE = {
    "C19": "Drain::next and Drain::next_back are unimplemented (todo!()) at this commit: there is no code to put a contract on; recorded in KNOWN_FINDINGS.md",
    "C20": "quantifies over thread schedules: Kani has no threads, and the atomics-based sharing count is not expressible in Verus without re-writing it with permission types, which would verify a model",
    "C21": "quantifies over programs the type checker accepts (auto traits); no function contract expresses it",
}
