import json, sys, importlib.util, numpy as np, io, contextlib
s=importlib.util.spec_from_file_location('s',sys.argv[1]); m=importlib.util.module_from_spec(s); s.loader.exec_module(m)
def j(x):
    if isinstance(x,np.generic): x=x.item()
    if isinstance(x,(list,tuple)): return [j(q) for q in x]
    if isinstance(x,np.ndarray): return j(x.tolist())
    if isinstance(x,dict): return {'__d':[[k,j(q)] for k,q in x.items()]}
    return x if isinstance(x,(int,float,str,bool,type(None))) else repr(x)
out={}
for n in dir(m):
    if n.startswith('t_'):
        try: out[n]=j(getattr(m,n)(2,3,[1,2,3,4]))
        except Exception as e: out[n]={'__e':repr(e)}
json.dump(out,open('/tmp/exp.json','w'))
for k,q in out.items():
    if isinstance(q,dict) and '__e' in q: print(k,q)
