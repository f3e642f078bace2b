"""Show what the loop machinery knows: python3-vt tools/dbg.py module pattern"""
import sys, importlib
sys.path.insert(0,'/verif')
from contracts import registry
w,cs=registry._world(sys.argv[1])
for c in cs:
    if sys.argv[2] in c.title():
        import pyvc.contract as pc
        S=[]
        orig=pc.Session
        class Spy(orig):
            def __init__(self,*a,**k): super().__init__(*a,**k); S.append(self)
        pc.Session=Spy
        try: s=c.verify(w)
        except BaseException as e: print(type(e).__name__,str(e)[:500])
        pc.Session=orig
        for s in S:
            for k,i in s.loops.items():
                print(k,'fields',{a:(None if b is None else [str(x) for x in b]) for a,b in i.fields.items()},'types',i.types)
                for d in sorted(i.dead,key=str): print('   dead',d)
            seen=set()
            for o in s.obligations.values():
                if o.status!='discharged': print('FAIL',o.name,str((o.detail or {}).get('goal'))[:400]); 
                elif 'loop' in o.name and o.name not in seen: seen.add(o.name); print('  ok',o.name)
