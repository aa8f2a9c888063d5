exec(open('run1.py').read().split("if __name__")[0])
import cx, gen, time
nat=cx.Native(prog)
for k in allc:
    if names and k.name not in names: continue
    g=k.__dict__.get('gen') or gen.by_types(k)
    t=time.time()
    r,ran=cx.search(k,nat,g,1,6)
    print(k.name, 'ran',ran, '%.1f'%(time.time()-t), json.dumps(r)[:int(os.environ.get("N","700"))] if r else 'no violation')
