import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
note={
"C01":"Seeded schedules of up to 5 callers on the real registry; every complete history is decided against a sequential model (linearizability search), the views are compared, races by happens-before detection.",
"C02":"Seeded schedules of shutdowns, registry operations and closes with injected transport close failures; state of registry and transports judged against the recorded closes.",
"C03":"Seeded schedules of overlapping closers, readers and writers with injected close failures on a simulated transport that counts successful closes.",
"C04":"Seeded schedules of setters and getters; every history is decided against a sequential model per connection; isolation by final-state comparison.",
"C05":"Simulated transport with short transfers, errors, timeouts, resets and blocking; every call on the wrapper is compared with the call the transport saw.",
"C06":"Seeded interleavings at the granularity of visitor statements and generated-parser functions, every 40th run or so from a cold process; each answer is compared with the answer a lone fresh parser gives, and with the meaning known to the generator.",
"C07":"Seeded histories of valid, malformed, empty and truncated inputs on one parser handed between callers; compared with fresh parsers and with the generator's knowledge.",
"C08":"Seeded interleavings of inspections and executions of shared statements; compared with sole use of a fresh copy and with an independent arithmetic reference.",
"C09":"Simulated row source that fails, ends early or yields malformed rows at every position; result compared with an independent exact reference (integer and dyadic values), source calls counted.",
"C10":"Map iteration order is a seam: the same workload under permuted orders must give the same result, and rows under permuted arrival the same groups.",
"C11":"Seeded call histories on several interleaved cursors over shared rows, compared with a reference window; races by happens-before detection.",
"C12":"Virtual clock with delays and forward and backward jumps between parse, preparation and evaluation.",
"C13":"Entropy is a seam: extreme, counted and repeated bit patterns; freshness is judged by which entropy an evaluation consumed or depends on.",
"C14":"A service assembled in the harness from the real packages, on simulated transports with fragmentation, resets, truncation and stalls; histories decided against a sequential reference service; bounded progress after faults stop.",
"C15":"Seeded histories of succeeding and failing alterations compared step by step with a list model; aliasing by re-reading earlier listings.",
"C16":"Seeded histories and interleavings of executions with failing parameters, compared with a literal-substitution reference.",
"C17":"Seeded catalogs and a failing row source; listing compared with the catalog model entry by entry.",
}
checks=[dict(property=p['id'],quick_cmd=f"bash check.sh {p['id']} quick",thorough_cmd=f"bash check.sh {p['id']} thorough",
 evidence_file=f"evidence/{p['id']}.json",technique="deterministic simulation with fault injection: seeded search over schedules, faults and histories, judged against a reference model",
 level="exploration",level_note=note[p['id']]+" Sampling, not proof: a clean run speaks for the schedules, faults and histories that were run. Trusts the simulator's replacements of sync, clock, entropy and map order, and the harness's reference model.") for p in props if p['id'][0]=='C']
r={
"P01":"Printing and re-parsing one statement is a pure, single-threaded function of the text: no schedule, clock, I/O, randomness or crash for a simulation to control; deciding it is input generation, another technique.",
"P02":"Robustness of a single parse is a pure function of the input string; simulation has nothing to schedule or to fail. (What depends on history and interleaving is claimed as C06 and C07.)",
"P03":"Quoting of one value is a pure function of the value. (What depends on executions, failures and interleavings of bindings is claimed as C16.)",
"P04":"Scalar functions are pure functions of their arguments. (Those that read the clock or entropy are claimed as C12 and C13, accumulating ones as C08 to C10.)",
"P05":"Typed assignment is a pure function of value and type.",
"P06":"Static tables: no input but the code itself.",
"P07":"A pure function of one text: nothing to schedule, delay or fail. (Known not to hold, see DESIGN.md section 3: conditions in parentheses, IN, NOT, LIKE and IS NULL are dropped.)",
}
m=dict(version=1,setup_cmd="bash check.sh build",checks=checks,not_applicable=[dict(property=p['id'],reason=r[p['id']]) for p in props if p['id'][0]=='P'],
notes="No hooks in /repo: scheduling points, clock, entropy, map order and locks are put behind seams by an overlay that check.sh generates from /repo's current tree at build time (sim/cmd/instrument). Repairs of genuine defects are the fix: commits listed in known-findings.txt.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
