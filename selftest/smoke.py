import sys,time
sys.path[:0]=['/verif','/repo',__import__('os').path.dirname(__import__('os').path.abspath(__file__))]
sys.dont_write_bytecode=True
import importlib; P=importlib.import_module(sys.argv[1]); del sys.argv[1]
from pyvc.explore import Explorer
from pyvc.gen import RandomGen
from pyvc.vlib import Reject
import random
for n in sorted(dir(P)):
    if n.startswith('h_') and (len(sys.argv)<2 or n in sys.argv[1:]):
        f=getattr(P,n)
        for i in range(300):
            try: f(RandomGen(random.Random(i)))
            except Reject: pass
            except Exception as e: print("native",n,i,repr(e)); break
        for mode in ('proof','bounded'):
            r=Explorer(f,mode=mode).run()
            print(n,mode,'paths',r.paths,'obl',len(r.obligations),'disch',r.discharged,'ref',[(x['label'],x['inexact']) for x in r.refuted],'unk',len(r.unknown),'unsup',r.unsupported[:3],'b',r.bounded,'inex',r.inexact,'%.1fs'%r.time,'PROVED' if r.proved else '')
