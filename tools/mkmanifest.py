#!/usr/bin/env python3
# Writes MANIFEST.json. BUILT: the properties that have a check.
import json, re
ids=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
T={ # technique, level, note
"C01":("exhaustive enumeration of bounded argument/result tuples over the real generated client and proxy","model_checking","Exhaustive for the fixture's 32 method shapes over the stated value alphabets (each position varied alone and, on small alphabets, jointly; both encodings, both directions); values outside the alphabets and codec internals are trusted."),
"C02":("exhaustive enumeration of requests against a dispatch model","model_checking","Exhaustive for the listed services over all verbs of the alphabet and all paths up to the stated number of edits from a real route; net/http's own mux is trusted."),
"C03":("exhaustive enumeration of bounded request bodies","model_checking","All byte strings up to the stated length and all truncations, single-byte and single-token mutations of valid bodies; leniences of the codec library are classed as free."),
"C04":("exhaustive fault injection at every byte of an exchange","model_checking","Every cut, reset, cancellation and expiry point of the listed exchanges over the real net/http transport, every status code, every reply truncation."),
}
import os
extra="/verif/tools/techniques.json"
if os.path.exists(extra): T.update({k:tuple(v) for k,v in json.load(open(extra)).items()})
checks=[]; na=[]
for i in ids:
    if i in T:
        t,l,n=T[i]
        checks.append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh "+i,"evidence_file":"evidence/%s.json"%i,"technique":"model checking: "+t,"level":l,"level_note":n})
    else:
        na.append({"property":i,"reason":"check not built yet"})
m={"version":1,"setup_cmd":"true","checks":checks,"not_applicable":na,"notes":"Every check builds the generator and its harness from /repo's working tree into a scratch directory under /tmp and removes it."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
