import sys, importlib; sys.path.insert(0,'/verif/vf')
from contract import *
import specs.common as K
mods=sys.argv[1].split(',')
for m in mods: importlib.import_module('specs.'+m)
prog=Program()
names=sys.argv[2:]
allc=[]
for p,l in K.PROPS.items():
    for k in l:
        if k not in allc: allc.append(k)
tot=time.time()
from concurrent.futures import ProcessPoolExecutor
def go(i):
    k=allc[i]
    r=verify(prog,K.C,k,verbose=len(names)>0)
    return i,r
sel=[i for i,k in enumerate(allc) if not names or k.name in names or (k.name+'['+k.label+']') in names]
if __name__=='__main__':
    if len(sel)==1: it=map(go,sel)
    else:
        ex=ProcessPoolExecutor(8); it=ex.map(go,sel)
    for i,r in it:
        print('%-45s %-5s %6.1fs rounds=%d obls=%d %s'%(r.fn,'OK' if not r.error and not r.failed and not r.vacuous else 'FAIL',r.wall,r.rounds,len(r.obls),r.vacuous or ''))
        if r.error: print('    ',r.error)
        for o in r.failed: print('    ',o['status'],o['name'],o['line'],o['detail'][:200])
    print(time.time()-tot)
