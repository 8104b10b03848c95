#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the claimed checks below and /verif/properties.jsonl."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={
"C01":("runtime monitor: independent recogniser of the ABNF over generated and small-scope-exhaustive strings","Every string up to length 5 (7 thorough) over a 7-letter alphabet plus seeded grammar-derived strings and mutations; trusts the hand-written recogniser."),
"C02":("runtime monitor: contract between equality, hash and order over ID pairs, triples and keyed collections","Seeded ID pools rich in case and boundary variants; equality ignoring ASCII case is the oracle."),
"C03":("runtime monitor: histories of mutators mirrored on plain collections, every accessor compared after every step","Seeded histories; no assumption on internals, only public accessors."),
"C04":("runtime monitor: add_shape/merge against an independent reference reconciliation","Seeded pairs of models with structural tweaks of every property; permuted lists are not judged."),
"C05":("runtime monitor: metadata/trait combination against the reference rule table, through every entry point","All pairs of value kinds, seeded contents."),
"C06":("runtime monitor: same parts merged in many orders and groupings, results compared with each other","Seeded partitions, up to all permutations of up to 4 parts."),
}
try:
    exec(open('/verif/tools/claims.py').read())
except FileNotFoundError: pass
checks=[];na=[]
for p in props:
    i=p['id']
    if i in T:
        t,n=T[i][:2]; lvl=T[i][2] if len(T[i])>2 else 'exploration'
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=t,level=lvl,level_note=n))
    else:
        na.append(dict(property=i,reason="The monitor for this property is not built yet (work in progress; the technique applies)."))
m=dict(version=1,setup_cmd="./build.sh",checks=checks,not_applicable=na,notes="Monitors are one Rust binary (harness/) linked with /repo's crates and rebuilt from /repo's working tree by every check. known_findings.txt lists recorded findings and repairs. No hooks in /repo are needed: every observation point is public.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not')
