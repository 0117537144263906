#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks below."""
import json, os
here=os.path.dirname(os.path.abspath(__file__))
ids=[json.loads(l)["id"] for l in open(os.path.join(here,"../properties.jsonl"))]
M="trusts the reference model in harness/src"
CLAIMS={
"C01":("random queries and documents against a reference evaluator",f"Sampled; {M}/eval.rs."),
"C02":("all small slices, then random ones, against the RFC algorithm","Exhaustive for small parts and lengths, sampled beyond."),
"C03":("all pairs of 28 values, then random operands, under six operators against a reference evaluator",f"Sampled; {M}/eval.rs. Deviations that the known findings F4, F5, F6 explain exactly are tolerated."),
"C04":("random filter expressions (truth tables, nested scopes, random documents) against a reference evaluator",f"Sampled; {M}/eval.rs. Deviations that F4, F5, F6 explain exactly are tolerated."),
"C05":("random calls of length, count and value against a reference evaluator",f"Sampled; {M}/eval.rs. Deviations that F4, F5, F6 explain exactly are tolerated."),
"C06":("patterns and subjects drawn from the I-Regexp grammar against a set-of-positions matcher",f"Sampled; {M}/iregexp.rs; patterns on which regex dialects differ are left out."),
"C07":("random derivations of the grammar and edits of them, judged by an independent recogniser",f"Sampled; {M}/abnf.rs."),
"C08":("the product of signatures, argument kinds and positions, then random calls, judged by an independent type checker",f"Exhaustive for single calls over seven argument kinds, sampled beyond; {M}/abnf.rs."),
"C09":("every spelling of a range of characters, then random strings and spellings, round trip against the denoted string","Exhaustive over ASCII and Latin characters, sampled beyond."),
"C10":("random integer texts and pairs against 128-bit arithmetic","Sampled, dense around the limits."),
"C11":("arbitrary strings, token sequences, prefixes and edits of random queries; panics and the error's invariants","Sampled; nesting bounded to 40 levels (beyond lies the known finding F16)."),
"C12":("random and mutated queries on random documents; panics, aborts and stray nodes","Sampled; bounded by the work the model needs."),
"C13":("random nesting families and mixtures of them, allocations counted against a polynomial of the length","Sampled up to 40 levels; work is measured as allocations."),
"C14":("random queries: print, parse, compare, evaluate, print again",f"Sampled; what the known findings F7, F8 and F18 garble is recognised and left out."),
"C15":("random texts and results through every conversion, compared with each other","Sampled."),
"C16":("random queries and documents, the two evaluators and the extension method compared by place","Sampled."),
"C17":("random documents with awkward names; three ways to follow each location compared, and an edit through the pointer",f"Sampled; {M}/eval.rs only for places."),
"C18":("random documents with awkward names; location texts against a formatter written from section 2.7, and queried back",f"Sampled; {M}/eval.rs (normalized)."),
"C19":("random located lists, joined and reordered, against a set model of deduplication","Sampled."),
"C20":("random results under random interleavings of iterator calls, against one reference sequence","Sampled."),
"C21":("stateful: random histories of parse, clone, drop, query, edit and threads, against the same query in a fresh state and the reference evaluator","Sampled histories and thread schedules; schedules are those the operating system produces."),
"C22":("metamorphic: random spellings of one abstract query compared","Sampled."),
"C23":("metamorphic: random splits of queries into prefixes, suffixes and selectors, recombined","Sampled."),
"C24":("over 400 generated user functions that record their arguments, called from random queries, against the reference evaluator",f"Sampled; every signature of up to three parameters is registered; {M}/eval.rs."),
"C25":("random queries and one-place variations of them, equality against observed meaning","Sampled; meaning is compared on random documents."),
"C26":("differential: random queries and documents answered by programs built with seven other sets of features and by the default build","Sampled; seven feature sets."),
"C28":("random nests of filters, calls and groups; calls and allocations counted against the steps of a reference evaluator",f"Sampled, up to 16 levels; work is measured as calls of user functions and allocations; {M}/eval.rs counts the steps."),
"C29":("random pairs of locations, elements, nodes and lists of related documents, compared with sequences of names and indices","Sampled; trusts serde_json's equality of values."),
"C27":("random programs: functions of supported signatures must compile, run and be known by name, functions with one fault must each be reported","Sampled; trusts the installed rustc."),
}
checks=[{"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"./thorough.sh {i}","technique":"property-based testing: "+CLAIMS[i][0],"level":"exploration","level_note":CLAIMS[i][1]} for i in ids if i in CLAIMS]
na=[{"property":i,"reason":"its check is not built yet"} for i in ids if i not in CLAIMS]
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
   "notes":"No hooks: every check goes through public interfaces of the crates in /repo."}
json.dump(m,open(os.path.join(here,"../MANIFEST.json"),"w"),indent=1)
print(len(checks),"checks,",len(na),"not claimed")
