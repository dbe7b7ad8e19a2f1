#!/opt/veriftools/pyvenv/bin/python3
"""verify.py --prop C09 --out FILE [--tier thorough]: re-verifies, from IR compiled from the current sources, every function
the property lists (plan.py) against its contract."""
import sys,os,re,json,time,argparse,tempfile,shutil,multiprocessing as mp,importlib
HERE=os.path.dirname(os.path.abspath(__file__));sys.path.insert(0,HERE)
from multiprocessing import connection
import load,exec as EX,contracts as CT,core,plan
strip=lambda d:re.sub(r'\(anonymous namespace\)::','',d)
CTX={}
TOKENS=None    # one per idle processor
def one(job):
    cfg,name,budget=job
    mods,types=CTX[cfg]
    ex=EX.Exec(mods,types,CT.REG);ex.tokens=TOKENS;ex.throws=cfg[1]=='exc'
    con=CT.REG.find(ex.dem.get(name,name),name)
    core.STATS.t=0;core.STATS.q=0
    r=CT.verify(ex,name,con,budget)
    r['function']=strip(r['function'])
    r['solver_s']=round(core.STATS.t,2);r['queries']=core.STATS.q
    r['assumed']=sorted(ex.assumed);r['relies']=sorted(strip(x) for x in ex.used);r['inlined']=sorted(strip(x) for x in ex.inlined)
    r['failures']=[{k:(v if isinstance(v,(str,int,float,bool)) else str(v)) for k,v in f.items()} for f in r['failures']]
    return r
def child(k,x,conn,attempt):
    try:
        os.setsid()
        core.ATTEMPT=attempt
        conn.send(one(x) if k=='f' else lemma(x))
    except EX.Lost: os._exit(1)
    except BaseException as e:
        import traceback
        conn.send({'lost':repr(e)+' '+traceback.format_exc()[-600:],'final':True})
    conn.close()
def run(todo,limit,width=8):
    """one process per job, so that a crash of the solver library loses nothing: the job is done again (up to twice)"""
    global TOKENS
    ctx=mp.get_context('fork');TOKENS=ctx.Semaphore(width);out=[None]*len(todo);queue=[(i,0) for i in range(len(todo))];live={}
    while queue or live:
        while queue and len(live)<width:
            if not TOKENS.acquire(False) and live: break
            i,n=queue.pop(0);r,w=ctx.Pipe(False)
            p=ctx.Process(target=child,args=(todo[i][0],todo[i][1],w,n));p.start();w.close();live[r]=(p,i,n,time.time())
        for r in connection.wait(list(live),timeout=1):
            p,i,n,t=live.pop(r)
            try: out[i]=r.recv()
            except (EOFError,OSError):
                p.join()
                if n<2: queue.insert(0,(i,n+1))
                else: out[i]={'lost':'worker ended (exit code %s) three times'%p.exitcode}
            r.close();p.join(5);TOKENS.release()
        for r in list(live):
            p,i,n,t=live[r]
            if time.time()-t>limit:
                os.killpg(p.pid,9);p.join();del live[r];r.close();TOKENS.release();out[i]={'lost':'no answer within %d s'%limit}
    return out
def lemma(job):
    mod,name,cfg=job;fn=importlib.import_module(mod).LEMMAS[name]
    return fn(EX.Exec(*CTX[cfg],CT.REG)) if fn.__code__.co_argcount else fn()
def main():
    ap=argparse.ArgumentParser();ap.add_argument('--prop');ap.add_argument('--groups',nargs='*');ap.add_argument('--out');ap.add_argument('--tier',default='quick');ap.add_argument('-v',action='store_true')
    A=ap.parse_args();t0=time.time()
    groups=A.groups or plan.PLAN[A.prop]['groups']
    thorough=A.tier=='thorough'
    budget=600 if thorough else 200
    work=tempfile.mkdtemp(prefix='coilir')
    try:
        jobs=[];missing=[];lem=[];unc=set()
        specs=set()
        for g in groups: specs|=set(plan.GROUPS[g].get('specs',()))
        for s in sorted(specs|set(plan.SPECS)): importlib.import_module(s)
        seen=set()
        for g in groups:
            G=plan.GROUPS[g];key=(tuple(G.get('units',())),G.get('flags','noexc'))
            if key not in CTX: CTX[key]=load.load(os.path.join(work,str(len(CTX))),key[0],load.NOEXC if key[1]=='noexc' else load.EXC)
            lem+=[x+(key,) for x in G.get('lemmas',()) if x not in [y[:2] for y in lem]]
            ex=EX.Exec(CTX[key][0],CTX[key][1],CT.REG)
            for pat in G['functions']:
                rx=re.compile(pat);hit=False
                for n,f in ex.funcs.items():
                    if f.name!=n or re.fullmatch(G.get('skip','-'),n): continue
                    d=strip(f.dem)
                    if rx.fullmatch(d) and ex.contract(n) is None: unc.add(d)
                    if rx.fullmatch(d) and ex.contract(n) is not None:
                        hit=True
                        if (key,n) not in seen: seen.add((key,n));jobs.append((key,n,budget,sum(1 for _ in f.loops())))
                if not hit: missing.append(pat)
        jobs.sort(key=lambda j:(-j[3],-len(CTX[j[0]][0])))
        todo=[('f',j[:3]) for j in jobs]
        for i,x in enumerate(lem): todo.insert(min(len(todo),i),('l',x))
        res=run(todo,budget+60)
        rs=[];ls=[]
        for (k,x),r in zip(todo,res):
            if k=='f': rs.append(r if 'lost' not in r else dict(function=strip(ex.dem.get(x[1],x[1])),status='undecided',why='worker: '+r['lost'],obligations=0,discharged=0,failures=[],by={},t=0,solver_s=0,assumed=[],relies=[],inlined=[],paths=0))
            else: ls.append(r if 'lost' not in r else dict(lemma=x[1],ok=False,why=r['lost'],t=0))
    finally: shutil.rmtree(work,ignore_errors=True)
    failed=[];und=[];by={}
    for r in rs:
        for k,v in r['by'].items(): by[k]=by.get(k,0)+v
        hard=[f for f in r['failures'] if not f.get('loop')]
        if r['status']=='failed' and hard: failed+=hard
        elif r['status']!='proved': und.append(dict(function=r['function'],why=r.get('why') or 'invariant not found: '+'; '.join(f['msg'] for f in r['failures'][:3])))
        if r['status']=='failed' and not hard: pass
    nl=sum(1 for l in ls if l['ok'])
    for l in ls:
        if not l['ok']: und.append(dict(function='lemma '+l['lemma'],why=l.get('why','not proved')))
    funcs={r['function'] for r in rs}
    out=dict(functions=[dict(function=r['function'],status=r['status'],obligations=r['obligations'],discharged=r['discharged'],paths=r['paths'],seconds=r['t']) for r in rs],
        lemmas=ls,
        obligations=sum(r['obligations'] for r in rs)+len(ls),discharged=sum(r['discharged'] for r in rs)+nl,
        back_ends=by,solver_s=round(sum(r['solver_s'] for r in rs),1),undecided=und,failed=failed,
        soft=[f for r in rs for f in r['failures'] if f.get('loop')],
        missing=missing,without_contract=sorted(unc),
        vacuity='every function counted as proved has a returning path whose facts (quantified ones included) z3 does not refute: %d shown satisfiable, %d not refuted in 0.7 s, %d functions vacuous; %d paths in all'%(sum(1 for r in rs if r.get('reached')=='sat'),sum(1 for r in rs if r.get('reached')=='unknown'),sum(1 for r in rs if not r.get('reached')),sum(r['paths'] for r in rs)),
        assumed=sorted({x for r in rs for x in r['assumed']}),
        relies_on_contracts=sorted({x for r in rs for x in r['relies']}-funcs),
        inlined=sorted({x for r in rs for x in r['inlined']}-funcs),
        wall_s=round(time.time()-t0,1))
    if A.out: json.dump(out,open(A.out,'w'),indent=1)
    if A.v or not A.out:
        for r in sorted(rs,key=lambda r:r['t']): print(r['status'],r['function'][:130],r['t'],r.get('why','')[:150],[f['msg'] for f in r['failures']][:3])
        for l in ls: print('lemma',l)
        print({k:out[k] for k in('obligations','discharged','back_ends','solver_s','missing','without_contract','wall_s')})
if __name__=='__main__': main()
