#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY : decide one property on /repo's current working tree.

1. deductive verification (dv/): every function the property lists is re-verified against its contract, from IR compiled
   from the current sources;
2. a bounded concrete search (search/): real code against a reference oracle, used to turn a failed obligation into a
   failing input and as the labelled stand-in for functions out of the verifier's reach.
Exit 0: held on everything decided and explored. Exit 1 + VIOLATION line: broken."""
import os,sys,json,subprocess,time,tempfile,shutil,re
HERE=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,os.path.join(HERE,'dv'))
REPO='/repo'

def known():
    out=[]
    p=os.path.join(HERE,'known_findings.txt')
    for l in open(p):
        l=l.strip()
        if l.startswith('open: '):
            m=re.match(r'open: property=(\S+) match=/(.*?)/ (.*)$',l)
            if m: out.append(m.groups())
    return out

def build(work,prop):
    exe=os.path.join(work,'driver')
    r=subprocess.run([os.path.join(HERE,'search','build.sh'),exe,prop+'.cpp'],capture_output=True,text=True)
    return exe if r.returncode==0 else None,(r.stdout+r.stderr)[-4000:]

def run_driver(exe,seeds,sec,thorough,work):
    ps=[]
    env=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=1:allocator_may_return_null=1')
    for s in seeds:
        f=open(os.path.join(work,'out%d'%s),'w+',errors='replace')
        ps.append((s,f,subprocess.Popen([exe,'--seed',str(s),'--time',str(sec),'--thorough','1' if thorough else '0'],stdout=f,stderr=subprocess.STDOUT,cwd=work,env=env)))
    cases=distinct=0;samples=[];fails=[];t0=time.time();left=list(ps)
    while left:
        for x in list(left):
            if x[2].poll() is not None: left.remove(x)
        if time.time()-t0>sec*3+120:
            for x in left: x[2].kill()
        if any(x[2].returncode not in(0,None) for x in ps) and left:
            time.sleep(0.5)
            for x in left: x[2].kill()
        time.sleep(0.02)
    for s,f,p in ps:
        f.seek(0);o=f.read()
        m=re.search(r'OK cases=(\d+) distinct=(\d+)',o)
        if m and p.returncode==0:
            cases+=int(m.group(1));distinct+=int(m.group(2))
            samples+=[l[7:] for l in o.split('\n') if l.startswith('SAMPLE ')]
        elif 'FAIL:' in o or (p.returncode not in(0,-9)): fails.append((s,p.returncode,o))
    return cases,distinct,samples,fails

def main():
    prop=sys.argv[1];tier=os.environ.get('VERIF_TIER','quick')
    if '--thorough' in sys.argv: tier='thorough'
    seed=int(os.environ.get('VERIF_SEED','1') or 1);t0=time.time()
    thorough=tier=='thorough'
    os.makedirs(os.path.join(HERE,'evidence'),exist_ok=True)
    work=tempfile.mkdtemp(prefix='coilverif')
    try: rc=decide(prop,tier,seed,thorough,work,t0)
    finally: shutil.rmtree(work,ignore_errors=True)
    sys.exit(rc)

def decide(prop,tier,seed,thorough,work,t0):
    import plan
    pl=plan.PLAN[prop]
    os.makedirs(os.path.join(work,'d'))
    # --- verification runs beside the build of the driver
    vp=None
    if pl['groups']:
        vout=os.path.join(work,'verify.json')
        vp=subprocess.Popen([sys.executable,os.path.join(HERE,'dv','verify.py'),'--prop',prop,'--out',vout,'--tier',tier],stdout=open(os.path.join(work,'verify.log'),'w'),stderr=subprocess.STDOUT)
    exe,log=build(os.path.join(work,'d'),prop)
    if exe is None:
        if vp: vp.kill()
        print('the driver does not build against the current tree:\n'+log);return 2
    sec,n=(120,8) if thorough else (8,4)
    cases,distinct,samples,fails=run_driver(exe,[seed*1000+k for k in range(n)],sec,thorough,work)
    V=None
    if vp:
        vp.wait()
        try: V=json.load(open(vout))
        except Exception:
            V=dict(error=open(os.path.join(work,'verify.log'),errors='replace').read()[-3000:],functions=[],failed=[],undecided=[])
    failed=V['failed'] if V else []
    # obligations that depend on a loop invariant which could not be found for the changed loop prove nothing either way:
    # they, like functions the verifier cannot decide, make the search for a failing input longer but are no alarm by themselves
    unsettled=bool(V) and bool(V.get('soft') or V.get('undecided') or V.get('missing') or V.get('error'))
    if (failed or unsettled) and not fails:
        # look harder for an input that shows it
        c2,d2,_,fails=run_driver(exe,[seed*1000+500+k for k in range(8)],120 if failed else 40,thorough,work)
        cases+=c2;distinct+=d2
    kn=[k for k in known() if k[0]==prop];lines=[];viol=0
    real=[]
    for s,rc,o in fails:
        hit=[k for k in kn if re.search(k[1],o)]
        if hit: lines.append('KNOWN-FINDING: property=%s %s'%(prop,hit[0][2]))
        else: real.append((s,rc,o))
    rep=os.path.join(HERE,'evidence','replay-%s.txt'%prop)
    if os.path.exists(rep): os.remove(rep)
    if real:
        s,rc,o=real[0];viol=1
        with open(rep,'w') as f:
            f.write('property %s\nfound by running the real code: search/%s.cpp --seed %d (exit %s)\n'%(prop,prop,s,rc))
            f.write('reproduce: cd /verif && mkdir -p /tmp/rp && search/build.sh /tmp/rp/driver %s.cpp && /tmp/rp/driver --seed %d --time %d\n\n'%(prop,s,120 if failed else sec))
            f.write('\n'.join(l for l in o.split('\n') if l.startswith(('FAIL:','CASE:')))+'\n\n')
            for x in failed: f.write('failed obligation: %s\n'%json.dumps(x,indent=1))
            f.write(o[-12000:])
        lines.append('VIOLATION property=%s replay=%s'%(prop,rep))
    elif failed:
        viol=1
        with open(rep,'w') as f:
            f.write('property %s\nfailed obligation(s) of the deductive verifier; no failing input was found by %d concrete cases\n\n'%(prop,cases))
            for x in failed: f.write(json.dumps(x,indent=1)+'\n\n')
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found'%(prop,rep))
    cov=dict()
    if pl['level']=='proof':
        cov.update(obligations=V.get('obligations',0),discharged=V.get('discharged',0),checker_cmd='python3-vt dv/verify.py --prop %s'%prop,trusted_base=pl['trusted']+V.get('assumed',[]))
    else:
        cov.update(evaluations=cases,distinct_nontrivial=distinct,rule=RULE,samples=samples[:4] or ['none'])
    if V:
        cov['deductive']={k:V.get(k) for k in('functions','lemmas','obligations','discharged','back_ends','solver_s','wall_s','undecided','failed','soft','missing','without_contract','vacuity','assumed','relies_on_contracts','inlined','error') if k in V}
    cov['bounded_search']=dict(evaluations=cases,distinct_nontrivial=distinct,rule=RULE,samples=samples[:4],seconds=sec*n,bound='random inputs of the sizes the driver generates; not a proof')
    ev=dict(property=prop,tier=tier,seed=seed,level=pl['level'],coverage=cov,assumptions=pl['assumptions'],wall_s=round(time.time()-t0,2),violations=viol)
    json.dump(ev,open(os.path.join(HERE,'evidence',prop+'.json'),'w'),indent=1)
    for l in lines: print(l)
    if V:
        print('%s: %d functions under contract, %d/%d obligations discharged, %d undecided functions; %d concrete cases'%(prop,len(V.get('functions',[])),V.get('discharged',0),V.get('obligations',0),len(V.get('undecided',[])),cases))
    else: print('%s: %d concrete cases'%(prop,cases))
    return 1 if viol else 0

RULE='cases are generated at random by search/<property>.cpp (seeded); a case is non-trivial when its description is longer than 12 characters, distinct by hash of the description'
if __name__=='__main__': main()
