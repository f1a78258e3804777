"""check <property> <tier>: regenerate the verification conditions of one property from /repo's current
source, discharge them, replay failed ones against the real code, write the evidence file."""
import sys,os,time,json,subprocess,importlib,shutil,random,threading
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE)
VERIF=os.path.dirname(HERE)
import native
from native import Harness,Native,BUILD
from registry import PROPS

def dump_mir(out):
    e=native.env(); e['CARGO_TARGET_DIR']=os.path.join(BUILD,'mir')
    cmd=['cargo','+nightly','rustc','--offline','--locked','-q','-p','festa_rs','--lib','--','-Zunpretty=mir','-Zmir-opt-level=0','-Zmir-enable-passes=-CheckAlignment,-CheckNull','-Ztrim-diagnostic-paths=no']
    r=subprocess.run(cmd,cwd=os.path.join(VERIF,'harness'),env=e,stdin=subprocess.DEVNULL,capture_output=True,text=True,timeout=300)
    if r.returncode or not r.stdout.strip():
        return None,(r.stderr or '')[-3000:]
    open(out,'w').write(r.stdout)
    return r.stdout,None

def load_known():
    p=os.path.join(VERIF,'known-findings.json')
    try: return json.load(open(p))
    except FileNotFoundError: return []

def main(pid,tier):
    T0=time.time(); seed=int(os.environ.get('VERIF_SEED','1') or 1)
    os.makedirs(BUILD,exist_ok=True); evd=os.path.join(VERIF,'evidence'); os.makedirs(os.path.join(evd,'replay'),exist_ok=True)
    # source change detection is cargo's: a copy of the tree may carry old timestamps, so start afresh when asked to
    text,err=dump_mir(os.path.join(BUILD,'lib.mir'))
    h=Harness()
    if text is None:
        h.get()
        print('cannot obtain MIR of /repo (does it compile?):\n'+err); return 2
    import mir,conc,obl
    from obl import run_all,Env
    crate=mir.Crate(text)
    P=PROPS[pid]
    obs=[]
    for m,f in P['obligations']: obs+=getattr(importlib.import_module(m),f)(crate)
    if tier!='thorough': obs=[o for o in obs if o.tier!='thorough']
    symb=[o for o in obs if o.native is None]; nat=[o for o in obs if o.native is not None]
    def log(o,r):
        if r.status!='proved': print('  %-12s %s (%.1fs) %s'%(r.status,o.name,r.time,r.detail[:300]),flush=True)
    deadline=T0+(620 if tier!='thorough' else 2400)
    rs=run_all(Env(crate,None),symb,8,deadline,log)
    path=h.get(); N=Native(path) if path else None
    if not path: print('  native harness does not build; no replay possible: '+str(h.err)[-400:])
    # ---------------- native part
    ops={}      # op -> count
    per=P.get('search_n',1500)
    failing=[(o,r) for o,r in zip(symb,rs) if r.status!='proved']
    stats={}; wit={}
    hard=T0+(840 if tier!='thorough' else 3300)
    wanted=[]
    for o in nat:
        for op,n in o.native: wanted.append((op,n*(5 if tier=='thorough' else 1)))
    for o,r in failing:
        for op in o.search: wanted.append((op,per))
    for op in P.get('sample',[]) if tier!='thorough' else sorted({s for o in obs for s in o.search}): wanted.append((op,per if tier=='thorough' else 200))
    want={}
    for op,n in wanted: want[op]=max(want.get(op,0),n)
    if N:
        from concurrent.futures import ProcessPoolExecutor,as_completed
        import multiprocessing as mp
        jobs=[]
        for op,n in want.items():
            if op not in conc.OPS: continue
            ch=max(20,min(n,conc.CHUNK.get(op,200)))
            for k in range((n+ch-1)//ch): jobs.append((op,ch,k))
        jobs.sort(key=lambda j:(j[2]))
        with ProcessPoolExecutor(8,mp_context=mp.get_context('fork')) as ex:
            fs={ex.submit(search_job,path,op,n,'%d.%d'%(seed,k),max(5,hard-time.time())):op for op,n,k in jobs}
            try:
                for f in as_completed(fs,timeout=max(5,hard-time.time())):
                    op=fs[f]
                    try: w,n,dn,sm=f.result()
                    except Exception as e: print('  native search %s: %r'%(op,e)); continue
                    s=stats.setdefault(op,[0,0,[]]); s[0]+=n; s[1]+=dn; s[2]=s[2] or sm
                    if w and op not in wit: wit[op]=w
            except Exception as e:
                print('  native search stopped: %r'%e)
            for f in fs: f.cancel()
            procs=list(getattr(ex,'_processes',{}).values() or [])
            if time.time()>hard:
                for p in procs: p.kill()
    # ---------------- verdicts
    known=[k for k in load_known() if k.get('property')==pid and k.get('status','known')=='known']
    def is_known(name,w):
        for k in known:
            if k.get('obligation')==name: return k
            if w is not None and k.get('op')==w['op'] and (k.get('match') is None or conc.KNOWN[k['match']](w)): return k
        return None
    violations=[]; kf=[]; undecided=[]
    used=set()
    for o,r in failing:
        w=next((wit[s] for s in o.search if s in wit),None)
        k=is_known(o.name,w)
        if k: kf.append((k,o,r)); [used.add(s) for s in o.search]; continue
        if (r.status in('refuted','unproved') and not (o.fallback and r.status=='unproved')) or w is not None:
            violations.append((o.name,o,r,w))
            if w: used.add(w['op'])
        else: undecided.append((o,r))
    for o in nat:
        for op,_ in o.native:
            if op in wit and op not in used:
                used.add(op); k=is_known(o.name,wit[op])
                if k: kf.append((k,o,None))
                else: violations.append((o.name,o,None,wit[op]))
    for op,w in wit.items():
        if op not in used:
            k=is_known(None,w)
            if k: kf.append((k,None,None))
            else: violations.append(('native.'+op,None,None,w))
    shown=set()
    for k,o,r in kf:
        if k['id'] not in shown: print('KNOWN-FINDING: property=%s %s'%(pid,k['what'])); shown.add(k['id'])
    for o,r in undecided: print('NOT-PROVED (verifier cannot read this code; bounded native check stands in): %s: %s %s'%(o.name,r.status,r.detail[:200]))
    files=[]
    # those with a witness first; one line per distinct replay
    violations.sort(key=lambda v:v[3] is None)
    for i,(name,o,r,w) in enumerate(violations):
        fn=os.path.join(evd,'replay','%s-%d.json'%(pid,i))
        d=dict(property=pid,obligation=name,function=o.fn if o else None)
        if r: d.update(verdict=r.status,backend=r.backend,verifier_output=r.detail,verifier_counterexample=str(r.witness) if r.witness else None)
        if w: d.update(failing_input=w,replay_command="printf '%s\\n' '"+' '.join([w['op']]+w['args'])+"' | .build/harness/debug/harness")
        json.dump(d,open(fn,'w'),indent=1); files.append(fn)
        print('VIOLATION property=%s replay=%s%s'%(pid,fn,'' if w else ' no-failing-input-found'))
        print('   obligation: %s'%name)
        if w: print('   failing input: %s %s -> %s (%s)'%(w['op'],' '.join(x[:60] for x in w['args'])[:200],' '.join(str(x)[:60] for x in w['observed'])[:160],w['message'][:200]))
        elif r: print('   verifier: %s %s'%(r.status,r.detail[:300]))
    write_evidence(pid,tier,seed,P,obs,symb,rs,nat,stats,violations,kf,undecided,crate,h,time.time()-T0)
    np=sum(1 for o,r in zip(symb,rs) if r.status=='proved')
    print('%s: %d/%d obligations discharged, %d bounded native checks, %.0f s, %s'%(pid,np,len(symb),len(nat),time.time()-T0,'VIOLATED' if violations else 'held on everything explored'))
    return 1 if violations else 0

def search_job(path,op,n,seed,budget):
    import conc
    N=Native(path)
    w,a,b=conc.search(N,op,n,seed,timeout=budget)
    r=random.Random('%s/%s'%(seed,op)); s=[' '.join(conc.OPS[op].gen(r))[:160] for _ in range(2)]
    return w,a,b,s

def write_evidence(pid,tier,seed,P,obs,symb,rs,nat,stats,violations,kf,undecided,crate,h,wall):
    import stdmodel
    proved=[(o,r) for o,r in zip(symb,rs) if r.status=='proved']
    unb=[(o,r) for o,r in proved if not o.bound]; bnd=[(o,r) for o,r in proved if o.bound]
    by={}
    for o,r in proved: by[r.backend]=by.get(r.backend,0)+1
    contracts=sorted({c for r in rs for c in r.contracts}); models=sorted({m for r in rs for m in r.models}); inl=sorted({m for r in rs for m in r.inlined})
    fns=sorted({o.fn for o,r in unb if o.fn})
    provedfn={o.fn for o in obs if o.fn}
    from registry import TRUSTED,CONTRACT_HOME
    ext=[c for c in contracts if c not in provedfn]
    cov=dict(obligations=len([o for o in symb if not o.bound]),discharged=len(unb),
        checker_cmd='bin/check %s %s  (cargo +nightly rustc -Zunpretty=mir on /repo, then engine/check.py)'%(pid,tier),
        trusted_base=TRUSTED+['std/num-bigint/intrinsics models used in this run: '+', '.join(models)],
        functions_under_contract=fns,verification_conditions=sum(r.vcs for o,r in proved),paths=sum(r.paths for o,r in proved),
        back_ends=by,solver_time_s=round(sum(r.time for r in rs),1),
        bounded_symbolic=[dict(obligation=o.name,bound=o.bound) for o,r in bnd],
        bounded_native=[dict(obligation=o.name,bound=o.bound,ops={op:stats.get(op,[0,0,[]])[:2] for op,_ in o.native}) for o in nat],
        not_discharged=[dict(obligation=o.name,status=r.status,detail=r.detail[:300]) for o,r in zip(symb,rs) if r.status!='proved'],
        callee_contracts_assumed_here=[dict(function=c,decided_by=CONTRACT_HOME(c)) for c in ext],
        inlined_uncontracted_functions=inl,
        native_samples={k:dict(evaluations=v[0],distinct=v[1],samples=v[2]) for k,v in stats.items()},
        proved_obligations=[dict(name=o.name,backend=r.backend,vcs=r.vcs,paths=r.paths,s=round(r.time,2)) for o,r in proved],
        known_findings=[k['id'] for k,_,_ in kf],harness_build_s=h.built)
    ev=sum(v[0] for v in stats.values())
    level=P['level']
    if level=='exploration':
        cov.update(evaluations=ev,distinct_nontrivial=sum(v[1] for v in stats.values()),rule='boundary-biased generated inputs, compared with an independent oracle',samples=[s for v in stats.values() for s in v[2]][:20])
    cov.setdefault('explanation',P.get('explanation',''))
    d=dict(property=pid,tier=tier,seed=seed,level=level,coverage=cov,wall_s=round(wall,1),assumptions=P.get('assumptions',[])+TRUSTED,violations=len(violations))
    cov['violated']=[dict(obligation=n,function=o.fn if o else None,replayed=w is not None) for n,o,r,w in violations]
    json.dump(d,open(os.path.join(VERIF,'evidence',pid+'.json'),'w'),indent=1,default=str)

if __name__=='__main__':
    rc=main(sys.argv[1],sys.argv[2] if len(sys.argv)>2 else os.environ.get('VERIF_TIER','quick'))
    sys.stdout.flush(); os._exit(rc)
