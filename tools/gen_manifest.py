#!/usr/bin/env python3
# regenerates /verif/MANIFEST.json
import json,subprocess
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
PROOF="contract-based deductive verification of the Go SSA of /repo (verification conditions discharged by z3/cvc5)"
CLAIM={
 'C01':('proof',PROOF,'every Put/Get codec against a byte-layout spec function, all values, all destination contents'),
 'C02':('proof',PROOF,'binary.Read and binary.Write: error condition, element layout, untouched bytes, for every length, stride and content'),
}
import os
if os.path.exists('/verif/tools/claims.py'):
    exec(open('/verif/tools/claims.py').read())
NA=globals().get('NA',{})
m=dict(version=1,setup_cmd='./setup.sh',hooks=dict(guard='none',enable='no hooks: specifications are laid over the packages with go build overlays',source_commits=[]),
 checks=[],not_applicable=[],notes='Engine in engine/, specifications in specs/ (written in Go, laid over the packages of /repo at check time). See DESIGN.md.')
for p in props:
    i=p['id']
    if i in CLAIM:
        l,t,n=CLAIM[i]
        m['checks'].append(dict(property=i,quick_cmd='./check.sh %s quick'%i,thorough_cmd='./check.sh %s thorough'%i,evidence_file='evidence/%s.json'%i,technique=t,level=l,level_note=n))
    else:
        m['not_applicable'].append(dict(property=i,reason=NA.get(i,'no check has been built for it yet')))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
