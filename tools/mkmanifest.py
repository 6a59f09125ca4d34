"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LANG = "TLA+ operational semantics of templates (spec/Machine.tla); recorded renders validated against it by TLC"
VALS = "TLA+ definition of the functions (spec/Lib.tla, Values.tla) over exact numbers and text; recorded calls validated against it by TLC"
FS = "TLA+ model of the file system and the locked folder (spec/Fs.tla); recorded file operations and snapshots validated against it by TLC"
GRAM = "TLA+ grammar of templates (spec/Grammar.tla) and machine; recorded parses and renders validated against them by TLC"
TECH = {"C01": GRAM, "C02": GRAM, "C23": GRAM, "C19": FS, "C20": FS}
for k in ("C13", "C14", "C15", "C16", "C17", "C18", "C25", "C29"): TECH[k] = VALS
TECH["C27"] = "TLA+ definition of how values are shown (spec/Values.tla); recorded displays validated against it by TLC"
TECH["C28"] = "TLA+ range predicate (spec/Lib.tla RandOK); recorded draws validated against it by TLC"
TECH["C22"] = "TLA+ definition of host values (spec/Values.tla HostGet); recorded lookups and renders validated against it by TLC"
TECH["C03"] = "trace validation with TLC: every operation of a recorded session must end with a result or an error"
TECH["C26"] = "TLA+ machine with TLC; repeated renders, fresh parses and clones must give equal recorded results"
ALL = "Exhaustive up to the stated bounds for what the model enumerates (bounds per property in DESIGN.md), and exact on every recorded execution; beyond the bounds executions are random (VERIF_SEED), so it covers what was generated. Trusts TLC, the recording harness and the transcription of the documented behaviour; errors are not told apart by message."
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
MC = "; TLC model checks the machine on all templates up to a bound over the property's alphabet (spec/MC.tla: invariants and step laws) and every behaviour is replayed into the real library"
LAWS = "; TLC checks the laws of the definitions on all tuples of corner universes (spec/MCLaws.tla) and every call is replayed into the real library"
HAS_MC = {"C%02d" % k for k in range(1, 13)} | {"C23", "C24", "C26"}
HAS_LAWS = {"C%02d" % k for k in list(range(13, 24)) + [3, 25, 27, 28, 29]}
checks = []
for p in props:
    i = p["id"]
    checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                   "technique": TECH.get(i, LANG) + (MC if i in HAS_MC else "") + (LAWS if i in HAS_LAWS else "") + ("; every function called with arguments that differ in little in every order" if i == "C26" else ""), "level": "model_checking", "level_note": ALL})
json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": [],
           "notes": "TLA+ with TLC. Fixed defects are listed in KNOWN_FINDINGS.txt; there is no open finding."}, open(H + "/MANIFEST.json", "w"), indent=1)
