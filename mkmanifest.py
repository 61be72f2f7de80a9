#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
T = dict(
 C01="mutation fuzzing of the reader under ASan/UBSan with operation follow-ups",
 C02="independent format validator monitoring every written file, under ASan/UBSan",
 C03="labelled-graph comparison of generated input with re-written output and with what the getters tell, under ASan/UBSan",
 C04="online comparison of Global/Start data with a reference parser and writer, under ASan/UBSan",
 C05="comparison of files before and after conversions against a per-field dimension table, under ASan/UBSan",
 C06="random API histories against a reference model of the reference graph, under ASan/LSan/UBSan",
 C07="random export histories compared with a labelled-graph model, under ASan/UBSan",
 C08="geometric oracle with metamorphic relations over random and degenerate segment pairs, under ASan/UBSan",
 C09="region oracle (membership, area, contiguity) over random outline operations, under ASan/UBSan",
 C10="independent NURBS evaluation of the generated faces, under ASan/UBSan",
 C11="independent curve evaluator compared with the API's answers, under ASan/UBSan",
 C12="mutation fuzzing of the IDF parser and converter under ASan/LSan/UBSan",
 C13="generated boards; converted model evaluated against an independent placement model, under ASan/UBSan",
 C14="differential runs under many process locales, with locale state monitored",
 C15="fault injection into file system calls, with monitored outcomes",
 C16="differential runs of direct and wrapper API, hostile handle histories under ASan/UBSan",
 C17="differential runs with different memory contents, stack contents and heap placement; valgrind memcheck",
 C18="generated boards written by the IDF writer and compared with the input by an independent text reader, under ASan/UBSan",
 C19="single-record faults put into valid files, with the outcome of reading monitored, under ASan/UBSan",
 C20="random histories of the IDF editing API compared with a reference model, with written files read by an independent reader, under ASan/LSan/UBSan",
 C21="random histories of calls on file paths compared with a reference model and the file system, under ASan/LSan/UBSan")
N = "Held on every execution observed (counts in the evidence file); executions are random with a fixed seed, so inputs outside those explored are not decided. "
A = dict(
 C01="Trusts ASan and UBSan (clang 18); the prebuilt SISL library is not instrumented.",
 C02="Trusts the independent validator vlib/igeslib.py.", C03="Trusts the generator and graph comparison in vlib; reals compared to the library's documented precision.")
checks, na = [], []
WHY = {}
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                           evidence_file="evidence/%s.json" % i, technique=T[i], level="fault_enumeration" if i == "C15" else "exploration",
                           level_note=N + A.get(i, "")))
    else:
        na.append(dict(property=i, reason=WHY.get(i, "its check is not built yet")))
m = dict(version=1, setup_cmd="python3 check.py --setup", hooks=dict(guard="none", enable="no hooks are needed: the checks observe the public API, sanitizers and files", source_commits=[]),
         checks=checks, not_applicable=na, notes="See DESIGN.md. VERIF_SEED, VERIF_TIER, VERIF_BUDGET (seconds) and VERIF_SCALE (case count factor) are honoured.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
