import json,sys,os
sys.path.insert(0,os.path.join(os.path.dirname(__file__),'..','dv'))
import plan
H=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(H+'/properties.jsonl')]
NOTE=getattr(plan,'NOTE',{})
m=dict(version=1,setup_cmd='./setup.sh',checks=[],not_applicable=[])
for p in props:
    pl=plan.PLAN.get(p['id'])
    if not pl: continue
    m['checks'].append(dict(property=p['id'],quick_cmd='./check.py '+p['id'],thorough_cmd='VERIF_TIER=thorough ./check.py '+p['id'],
      technique=('contract-based deductive verification of the LLVM IR of the real code (symbolic execution against function contracts, z3/cvc5)'+(', every obligation discharged' if pl['level']=='proof' else ' for the listed functions')+'; bounded concrete search beside it') if pl['groups'] else 'bounded concrete search against a reference oracle (labelled bounded: the functions are not yet under contract)',level=pl['level'],level_note=NOTE.get(p['id'],'bounded: concrete search over random inputs against a reference oracle')))
json.dump(m,open(H+'/MANIFEST.json','w'),indent=1)
