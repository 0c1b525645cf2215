#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks present in harness/."""
import json, os, subprocess
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH={
'C01':'TLA+ register machine (MPSReg): TLC-generated histories replayed on the code; BFS of its invariants',
'C02':'TLA+ register machine (MPSReg): TLC-generated arithmetic histories replayed on the code',
'C03':'TLA+ register machine (MPSReg): exact inner products compared over TLC histories',
'C04':'TLA+ register machine with files (MPSReg): TLC copy/save/load histories replayed on the code',
'C05':'TLA+ register machine (MPSReg): exact expectation values compared over TLC histories',
'C06':'TLA+ register machine (MPSReg) and Schmidt model: gate histories replayed on the code',
'C07':'TLA+ SchmidtTrunc model: exact truncations enumerated by TLC and replayed',
'C08':'TLA+ Constructors model: TLC-generated constructions replayed and aliasing histories',
'C09':'TLA+ LatticeModels: exact second-quantised Hamiltonians from TLC compared entrywise',
'C10':'TLA+ LatticeModels: two-site terms from TLC compared with the gate generators',
'C11':'TLA+ Environment model: exact matrix elements from every cut compared',
'C12':'TLA+ Sweep model: trace validation of recorded sweeps with environment freshness',
'C13':'TLA+ Sweep/exact-spectrum models: trace validation of energies and schedules',
'C14':'TLA+ Trotter clock: schedules model-checked, recorded gate traces validated',
'C15':'TLA+ TDVP sweep clock and exact transfer chains: trace validation and replay',
'C16':'TLA+ Checkpoint model: TLC histories with crash points replayed with real files',
'C17':'TLA+ Markov model of infinite unit cells (exact rational transfer matrices): TLC-generated cells and flows replayed',
'C18':'TLA+ Transfer model: exact integer transfer-operator actions and environments replayed',
'C19':'TLA+ Insertion model of growing chains with exact energies: recorded growth steps validated and replayed',
'C20':'TLA+ Krylov model: exact-spectrum operators from TLC replayed',
'C21':'TLA+ TensorNetwork model: networks and orders generated by TLC replayed',
'C22':'TLA+ bit and step-control machines: TLC-enumerated histories replayed',
}
NOTE={}
exec(open(os.path.join(root,'tools','notes.py')).read()) if os.path.exists(os.path.join(root,'tools','notes.py')) else None
default_note=('The abstract machine is model checked exhaustively only in small bounds; the binding to the code covers the '
  'behaviours generated or recorded in a run (seeded), compared with exact integer/rational expectations up to a float tolerance. '
  'Trusts TLC, numpy linear algebra, and the decoding of a state object into a dense vector.')
props=[json.loads(l) for l in open(os.path.join(root,'properties.jsonl'))]
checks=[];na=[]
for p in props:
    i=p['id']
    if os.path.exists(os.path.join(root,'harness',i.lower()+'.py')):
        checks.append(dict(property=i,quick_cmd='./check %s'%i,thorough_cmd='./check %s thorough'%i,evidence_file='evidence/%s.json'%i,
            technique=TECH[i],level='model_checking',level_note=NOTE.get(i,default_note)))
    else:
        na.append(dict(property=i,reason='check not built yet'))
m=dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na,
  notes='Checks import the code from /repo directly (pure Python, nothing to build); no hooks are needed.')
json.dump(m,open(os.path.join(root,'MANIFEST.json'),'w'),indent=1)
print(len(checks),'checks')
