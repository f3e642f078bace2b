import sys,time,importlib,multiprocessing as mp
sys.path.insert(0,'/verif')
def job(arg):
    mod,i=arg
    from contracts import registry
    from pyvc.terms import Unsupported
    w,cs=registry._world(mod)
    c=cs[i]; t=time.time()
    try: s=c.verify(w)
    except Unsupported as e: return c.title(),'UNSUPPORTED '+str(e),[],0,time.time()-t,{}
    except Exception as e:
        import traceback; return c.title(),'CRASH '+traceback.format_exc()[-400:],[],0,time.time()-t,{}
    bad=[(o.name,(o.detail or {}).get('answer'),str((o.detail or {}).get('goal'))[:300].replace('\n',' ')) for o in s.obligations.values() if o.status!='discharged']
    tag='' if s.reach and s.obligations and not getattr(s,'vacuous',False) else 'VACUOUS'
    dead=[x for x,y in getattr(s,'call_sites',{}).items() if not y]
    if dead: tag+=' NEVER-RETURNS '+str(dead)
    return c.title(),tag,bad,len(s.obligations),time.time()-t,s.outcomes
if __name__=='__main__':
    jobs=[]
    import contracts.world
    for mod in sys.argv[1].split(','):
        m=importlib.import_module('contracts.'+mod)
        for i,c in enumerate(m.contracts()):
            if len(sys.argv)<3 or sys.argv[2] in c.title(): jobs.append((mod,i))
    n=f=0; u=0
    with mp.Pool(8) as p:
        for title,tag,bad,k,t,o in p.imap_unordered(job,jobs,chunksize=1):
            n+=k; f+=len(bad); u+=tag.startswith(('UNS','CRASH'))
            if tag or bad or t>8: print(title,tag,k,'obl',o,round(t,1))
            for b in bad[:3]: print('   FAIL',*b)
    print(n,'obligations',f,'failed',u,'unsupported/crash',len(jobs),'contracts')
