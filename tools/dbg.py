import sys, traceback; sys.path.insert(0,'/verif')
import dv
from dv import harness as hz, core
import importlib
prop,name=sys.argv[1:3]
importlib.import_module("dv.props."+prop.lower())
h=hz.REG[(prop,name)]
S=hz.make_symg()
work=[[]]; lim=int(sys.argv[3]) if len(sys.argv)>3 else 3
while work and lim:
    c=core.Ctx(work.pop()); core.Ctx.cur=c; g=S(c); lim-=1
    try: h.fn(g); print("ok", len(g.obls), c.taken)
    except core.Infeasible: print("infeasible")
    except BaseException: traceback.print_exc()
    work.extend(c.pending)
