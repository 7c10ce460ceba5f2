import sys; sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__)))); sys.path.insert(0,__import__("os").environ.get("PV_REPO","/repo")); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages"); sys.setrecursionlimit(20000)
import os; os.environ["TQDM_DISABLE"]="1"
import importlib, random
from pv import verify as V
mod=importlib.import_module('props.'+sys.argv[1])
for u in mod.units():
    if sys.argv[2] in u.name:
        r=V.run_concrete(u, u.samples, 1)
        print(u.name, {k:(v if not isinstance(v,(list,dict)) else len(v)) for k,v in (r if isinstance(r,dict) else vars(r) if hasattr(r,'__dict__') else {'r':r}).items()} )
