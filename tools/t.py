import sys,time; sys.path.insert(0,'/verif')
import warnings; warnings.simplefilter('ignore')
from sa.crypto import *
def go(path, only=None):
    a=Crypto('/repo/src').build()
    fr=a.load_rules(path, open("/verif/rules/lib.py").read())
    for n,f in fr.items():
        if f[0]!='fn' or only and n not in only: continue
        t=time.time(); v0=len(a.violations)
        try:
            outs,r=a.run_rule(n,f)
        except Undecided as e:
            print(n,'UNDECIDED',e,a.node and getattr(a.node,'lineno',0)); 
            if '-x' in sys.argv: raise
            a.stack.clear(); continue
        print(n,len(outs),'reached',r,'viol',len(a.violations)-v0,'%.2fs'%(time.time()-t),'steps',a.steps)
        for v in a.violations[v0:v0+3]:
            print('   ',v.msg,v.where)
            for l in v.path[-25:]: print('        ',fmt_lit(l))
if __name__=='__main__':
    go(sys.argv[1], [x for x in sys.argv[2:] if x!='-x'] or None)
