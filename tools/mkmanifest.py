import json
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
NOTE={
'C01':'differential against an extended-precision reference model of the nine definitions; exploration of generated data sets, not a proof',
}
TECH={
'C01':'property-based testing: batch values vs an extended-precision reference model on generated data sets',
'C02':'property-based testing: model-based streams, every prefix vs the reference model and the own batch value',
'C03':'property-based testing: metamorphic, permuted rows and reordered streams',
'C04':'property-based testing: metamorphic, injective label renamings, plus the reference model',
'C05':'property-based testing: single-label streams and batches, exact expected outcome',
'C06':'property-based testing: generated call histories with forbidden mode switches',
'C07':'property-based testing: fault injection of refused calls into histories, differential against the clean history',
'C08':'property-based testing: histories with overwritten buffers, bitwise comparison and reference model',
'C09':'property-based testing: random interleavings of several objects vs the reference model and a replay alone',
'C10':'property-based testing: interface contract over every index and generated histories',
'C11':'property-based testing: metamorphic, isometries, scalings and constant features',
'C12':'property-based testing: range invariants over generated data sets and stream prefixes',
'C13':'property-based testing: generated dtypes and memory layouts vs the reference model and the plain call',
'C14':'property-based testing: metamorphic, cluster means pulled apart',
'C15':'property-based testing: long generated streams vs the reference model and the batch value',
'C16':'property-based testing: metamorphic, replicated samples',
'C17':'property-based testing: generated degenerate data vs the reference model',
'C18':'property-based testing: legacy streams vs the reference model; generated names and skipped cluster numbers',
'C19':'property-based testing: algebraic identities between indices on generated data',
'C20':'property-based testing: model-based point sequences and queries',
'C21':'property-based testing: histories forked by copy and pickle, differential against the uninterrupted history',
'C22':'property-based testing: invariant over generated stream lengths (size of the retained state)',
'C23':'property-based testing: legacy histories with reused buffers, refusals, copies and interleaving vs the reference model',
'C24':'property-based testing: model-based point sequences, membership queries and lists',
'C26':'property-based testing: process-wide state compared before and after generated histories under generated settings',
'C25':'property-based testing: recursions over generated sequences vs recomputation in extended precision',
}
m={"version":1,
 "setup_cmd":"PYTHONHASHSEED=0 python3-vt -c 'import sys; sys.dont_write_bytecode=True; sys.path[:0]=[\"/verif\",\"/repo/src\"]; import hypothesis, numpy, cvi, lib.ref, lib.gen'",
 "checks":[{"property":p["id"],
   "quick_cmd":f"PYTHONHASHSEED=0 python3-vt check.py {p['id']}",
   "thorough_cmd":f"PYTHONHASHSEED=0 VERIF_TIER=thorough python3-vt check.py {p['id']} --thorough",
   "evidence_file":f"evidence/{p['id']}.json",
   "technique":TECH[p["id"]],"level":"exploration",
   "level_note":"Generated-input search with Hypothesis on the real code in /repo; holds on everything generated, within the sizes stated in DESIGN.md and up to the reference model's rounding tolerance."} for p in P],
 "not_applicable":[]}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
