#!/usr/bin/env python3
"""Write /verif/MANIFEST.json: one check per property that has one."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pyrstat import registry  # noqa: E402

EFF = ("whole-program abstract interpretation of the source (heap, alias, "
       "effect and exit analysis): ")
NOTES = {
    "C01": (EFF + "RNG provenance",
            "Every source of randomness reachable from any public operation "
            "is traced to the generator object given at construction."),
    "C02": (EFF + "typestate of the fitted flags over every exit",
            "Every query from every unfitted, aborted or wrongly fitted "
            "abstract state, for every exceptional exit of every fit."),
    "C03": (EFF + "write-effect (purity) analysis of queries",
            "No reachable write to an object that a later query or warm "
            "start can read."),
    "C04": (EFF + "ownership and alias analysis of recorded draws",
            "No reachable write to any object owned by a recorded draw."),
    "C05": (EFF + "alias and write analysis of arguments",
            "No write to caller objects, no retained reference to data."),
    "C06": (EFF + "taint (information flow) from an earlier fit",
            "Results of a cold fit carry no dependency on the fields an "
            "earlier fit wrote."),
    "C07": (EFF + "information flow and must-not-reset analysis of warm "
            "starts",
            "Record kept, first step reads the previous state."),
    "C17": (EFF + "type-case analysis of accepted input forms",
            "Every accepted form reaches a normal exit, every other one "
            "TypeError before a write."),
    "C18": (EFF + "value-identity flow of constructor arguments",
            "Each keyword reaches the field of the same meaning unchanged."),
    "C19": (EFF + "case analysis of option values over all exits",
            "Advertised values reach a normal exit, others an exception "
            "before any write or draw."),
    "C20": ("class-structure analysis of the syntax tree, abstract methods, "
            "exports and documentation index",
            "Interface completeness and export lists agree."),
}
VG = ("value numbering of the source (interprocedural dataflow with loops in "
      "closed form) and polynomial identity testing of the extracted "
      "formulas (random interpretation): ")
NOTES.update({
    "C11": (VG + "weights are stick-breaking or probability vectors",
            "Extracted weight formulas of every model, variant and call "
            "sequence against the stick-breaking normal form, intervals, or "
            "identity tests on random admissible leaves."),
})
NOTES.update({
    "C12": (VG + "result identity, lengths, prefixes and the loop exit "
            "condition of tail",
            "Loops in closed form with inferred length relations; the exit "
            "fact of tail's loop implies sum >= x."),
    "C25": (VG + "domain of every draw, index and reduction on every path",
            "Every recorded draw site and every partial operation of every "
            "model, variant and call sequence, limits included."),
})
NOTES.update({
    "C13": (VG + "shape, range and identity of the weight queries",
            "Every statistic of every model, scalar and array argument, "
            "before and after every kind of fit."),
})
NOTES.update({
    "C24": (VG + "parameters of every draw, log-density and variational "
            "expectation against the documented distribution",
            "Sticks are matched with the draw they come from; parameters are "
            "prior parameters plus the counts of the stick's group."),
})
NOTES.update({
    "C16": (VG + "shapes of query results",
            "Every query, data source, form of dim and component after a fit "
            "of symbolically many observations; the extracted length of the "
            "result must be the number of points, and no path may raise."),
    "C21": (VG + "the bound against its textbook terms, the stopping rule "
            "and the flag",
            "The extracted bound equals the sum of its terms after every "
            "sweep; the state after a fit equals that of the sweep at which "
            "the rule stops, for tolerances just above and below each "
            "change."),
    "C27": (VG + "every block update against the coordinate-ascent optimum",
            "A sweep that sets every variational factor to the exact "
            "conditional optimum of the bound cannot lower it; each update's "
            "formula is identified with that optimum."),
})
NOTES.update({
    "C10": (VG + "affinity entries against counts over the recorded draws",
            "Every data source and history; entries recomputed from the "
            "recorded draws or the assignment probabilities."),
    "C14": (VG + "range, sum and argmax of the extracted assignment "
            "probabilities, extreme observations included",
            "The extracted probabilities are evaluated on random and far "
            "apart leaves; labels and uncertainties are identified with "
            "their argmax and complement."),
    "C15": (VG + "covariance of every extracted result under an affine change "
            "of units",
            "The same extracted formulas evaluated on original and rescaled "
            "leaves, draws transported accordingly."),
    "C29": (VG + "quadrature of the extracted density and agreement of its "
            "marginals",
            "The closed formula of the density, extracted from the source, is "
            "integrated over the whole line on random admissible leaves."),
    "C30": (VG + "extracted densities against the textbook mixture",
            "Every density query, data source, form of dim and component, "
            "period count; identified with the mixture of the records."),
})
NOTES.update({
    "C08": (VG + "recorded draws against the states of the chain",
            "Record k is identified with the state after step burn_in + k * "
            "subsample_steps + 1 for a grid of schedules and warm starts."),
    "C09": (VG + "the MAP record against every state of the chain",
            "Log-likelihoods of the MAP record and of all states, for every "
            "schedule and warm start, as formulas of the draws."),
    "C22": (VG + "order and freshness of the blocks of a step",
            "Consecutive states and the calls on the weighting model between "
            "them; which assignments each block read."),
    "C26": (VG + "draw parameters and label probabilities against the full "
            "conditionals",
            "Parameters of the draw an atom is, and the distribution of the "
            "label and slice formulas over their own draws."),
    "C23": ("abstract interpretation of the loaders over a table domain "
            "(columns and rows of the bundled files)",
            "Exact: header and missing cells are read from the bundled files."
            ),
})
TRUST = (" Trusts the stated summaries of numpy, scipy, sklearn and pandas "
         "calls in pyrstat/effext.py; points the analysis cannot decide are "
         "printed as UNDECIDED and raise no alarm.")
try:
    from tools_notes import MORE  # optional additions
    NOTES.update(MORE)
except ImportError:
    pass
NA = {
    "C28": "Termination of tail depends on random sums of weights (and fails "
           "with probability zero, not never); no static ranking function "
           "exists.",
}


def main():
    props = [json.loads(x) for x in open(os.path.join(
        HERE, "properties.jsonl"))]
    t = registry.table()
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in t and i in NOTES:
            tech, note = NOTES[i][:2]
            checks.append({
                "property": i,
                "quick_cmd": "python3 bin/check.py %s" % i,
                "thorough_cmd": "python3 bin/check.py %s --thorough" % i,
                "technique": tech, "level": "other",
                "level_note": note + TRUST})
        else:
            na.append({"property": i, "reason": NA.get(
                i, "No check built yet.")})
    out = {"version": 1,
           "setup_cmd": "python3 -m compileall -q pyrstat bin",
           "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(out, fh, indent=1)
        fh.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


main()
