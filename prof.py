"""prof.py PROP HARNESS [variant-json] [npaths]: profile some paths in one process (development aid)"""
import sys, json, os, time, cProfile, pstats
sys.path.insert(0,'/verif')
import env; env.setup()
from sym import driver, harness, explore
env.load_harnesses(sys.argv[1])
driver.load_all()
h=harness.REG[(sys.argv[1],sys.argv[2])]
v=json.loads(sys.argv[3]) if len(sys.argv)>3 else h.quick[0]
n=int(sys.argv[4]) if len(sys.argv)>4 else 20
sys.setrecursionlimit(20000)
stack=[[]]; st=explore.Stats()
def rp(l,ms):
    print('CANDIDATE',l,ms); 
    for m in ms:
        p,o=driver.replay_subprocess(h.prop,h.name,v,m,l,h.cfg.get('tol',1e-6),'')
        print(p,o)
        if p: return {'path':p,'out':o,'model':m}
pr=cProfile.Profile(); t=time.time(); pr.enable()
for i in range(n):
    if not stack: break
    o=driver.run_path(h,v,stack.pop(),time.time()+600,st,1,{'replay':rp,'witness':0,'tier':'quick'})
    stack+=o['pending']
    if o['status']!='done' or o['inconclusive']: print(o['status'],o['msg'],o['inconclusive'][:3])
    if o['found']: break
pr.disable(); print(i+1,'paths',time.time()-t, st.as_dict(), 'pending',len(stack))
pstats.Stats(pr).sort_stats(sys.argv[5] if len(sys.argv)>5 else 'tottime').print_stats(45)
