import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
import sys
sys.path.insert(0,'/verif')
claimed=sys.argv[1].split(',')
NOTE={
"C01":"seeded search over shared leaf elements, callers, schedules, faults and address layouts; answers compared with a reference built from FIAT on fresh objects",
"C02":"as C01 for composites; reference computed from the factors alone",
"C03":"as C01 with per-caller cells; the mapped basis is recomputed by dualising the functionals on the physical cell",
"C04":"as C01 with per-caller quadrilaterals; reference checks Lagrange property, containment of polynomials and derivatives",
"C05":"dual evaluations of caller functions compared with the functionals applied numerically",
"C06":"exactness, weights, index identity and mass matrices judged against closed-form integrals",
"C07":"layouts compared with the reference however the element was used before",
"C08":"interrupts, memory failures and lower-layer failures at seeded steps; every retry and every later answer judged",
"C09":"everything passed in and handed out is frozen and compared after the run",
"C10":"the same requests in simulated processes with different hash seeds, address layouts and unrelated activity; canonical expressions compared",
"C11":"symbolic elements stored, crashed, reloaded across simulated process lifetimes; identity compared with a model store",
"C12":"concurrent, interrupted registrations checked against a small model of the table",
"C13":"refused requests mixed with valid ones over shared objects; refusal must repeat and leave answers right",
"C14":"optional packages present, absent, failing or changing between uses, in fresh simulated processes; answers judged by the reference",
"C15":"names made in one simulated process, tables filled in another after a restart; evaluated against the known element",
}
na=[{"property":p["id"],"reason":""} for p in props if p["id"] not in claimed]
R={"N01":"a pure function of an element's constructor arguments with no history, schedule, fault or process behind it: simulation adds nothing to calling it (what does depend on history is covered by C08, C09, C11)",
"N02":"a fact about pairs of fixed basis functions and geometry: pure mathematics of one call each, no schedule or fault can change it once C01-C03 hold",
"N03":"about the form and cost of an expression returned by one pure call; no nondeterminism enters (identity and order of structure across processes are C10)",
"N04":"a pure function of the arguments; no state, time, fault or second party is involved",
"N05":"a numerical conditioning statement over mesh sizes of a pure function; nothing for a simulator to vary",
"N06":"a pure structural translation of one expression; no state outlives the call (its use inside direct serendipity is exercised by C04 and C14)"}
for n in na: n["reason"]=R.get(n["property"],"check still being built")
m={"version":1,"setup_cmd":"python3 run.py --setup",
"checks":[{"property":c,"quick_cmd":"python3 run.py %s quick"%c,"thorough_cmd":"python3 run.py %s thorough"%c,
"evidence_file":"evidence/%s.json"%c,"technique":"deterministic simulation with fault injection: "+NOTE[c],"level":"exploration",
"level_note":"sampled, not exhaustive: one seed is one exactly repeatable execution; a pass means no violation in the runs the evidence counts"} for c in claimed],
"not_applicable":na}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
