import sys, json, traceback, os
os.chdir('/verif'); sys.path.insert(0,'/verif')
sys.argv=['check.py']+sys.argv[1:]
from vga import spec, values as v
from vga.interp import World
from vga.values import K
import check
src=open(sys.argv[1]).read(); only=sys.argv[2:]
exp=json.load(open('/tmp/exp.json'))
import inspect
w=None
for n,e in exp.items():
    if only and n not in only: continue
    if isinstance(e,dict) and '__e' in e: continue
    a=mk=None
    try:
        w=World(os.environ.get('VGA_REPO','/repo')+'/src') if 'src' in inspect.signature(World).parameters or True else None
    except Exception:
        w=World('/repo')
    a=spec.A(w,spec.Obligation(n,['P01'],'x','y',None,'quick'),'quick')
    st=a.state(flags=('strict',))
    try:
        r=a.ref(src)
        got=a.call(st,r(n),K(2),K(3),a.lst(st,[K(1),K(2),K(3),K(4)]))
    except Exception as ex:
        print('ERR',n,repr(ex)[:200]); continue
    if got is None:
        print('DEAD',n,[ (getattr(getattr(a.I.deref(s,x),'cls',None),'name','?'),wh) for s,x,wh in a.raises()][:2]); continue

    def cmp(g,e,path):
        if isinstance(e,dict): return
        if isinstance(e,list):
            its=a.I.items_of(v.simplify(g,st.pc),st) if isinstance(g,v.V) else None
            if its is None: print('??',n,path,'not a sequence',a.I.freeze(g,st).__repr__()[:100],'expected',e); return
            if len(its)!=len(e): print('WRONG',n,path,len(its),'items',[repr(a.I.freeze(q,st))[:30] for q in its][:8],'expected',e); return
            for k,(p,q) in enumerate(zip(its,e)): cmp(p,q,path+[k])
            return
        a.mism=[]
        a.eq(st,g,K(e) if not isinstance(e,float) else v.lift_const(e),'x')
        for mm in a.mism:
            print('WRONG' if mm.status=='violation' else '??',n,path,mm.detail[:150],'| expected',e)
    try: cmp(got,e,[])
    except BaseException as ex: print('ERR',n,path if 0 else '',repr(ex)[:200])
