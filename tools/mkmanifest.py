#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NOTE = {
 "C01": "TLC shows on the reader model that every step consumes input and ends; the real code runs on adversarial inputs (nesting, cuts at every offset, every byte at every position, counts around 256, soup of grammar fragments) and the specification Calls accepts only recorded calls that returned with well-formed strings.",
 "C21": "builds the library with about 45 feature sets and compares the results of each with what the specification, parametrised by the feature set, derives from the input.",
 "C24": "the history of calls (repeated, reordered, from four threads, at other addresses, through both entry points) is checked against the specification Purity, whose state is the memo of results per input.",
 "C25": "TLC shows on a model with a small memory (Values, MC_Values) that the specification accepts everything a correct implementation reports and nothing else, and on pairs of parts (MC_Copies) which differences make entities unequal; the recorded copies, comparisons and looks of the real code are then replayed by the specification Copies.",
}
GENERAL = ("Bounded model checking of the specification (TLC, exhaustive within the constants in drive/props.py) shows that the specified "
           "transitions satisfy the property; the specification is bound to the code by conformance: TLC validates the results recorded from "
           "the real code on all inputs the models enumerate and on generated ones, in several feature configurations. Trusted: the "
           "specification's reading of the intended behaviour, TLC, rustc, and the harness that reports the public values. Not a proof for all inputs.")
checks = [dict(property=i, quick_cmd="python3 drive/check.py %s quick" % i,
               thorough_cmd="python3 drive/check.py %s thorough" % i,
               technique="TLA+ specification checked with TLC; trace validation of the real code against it",
               level="model_checking", level_note=(NOTE[i] + " " if i in NOTE else "") + GENERAL) for i in ids]
json.dump(dict(version=1, setup_cmd="python3 drive/check.py setup", checks=checks, not_applicable=[],
               notes="No hooks in /repo: everything is observed through the public interface. See DESIGN.md."),
          open(V + "/MANIFEST.json", "w"), indent=1)
