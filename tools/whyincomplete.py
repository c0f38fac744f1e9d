import sys; sys.path.insert(0,'/verif')
from symex import engine
o=engine.Engine.note_incomplete
import traceback,collections
c=collections.Counter()
def n(self,why):
    st=[f for f in traceback.extract_stack() if '/symex/' not in f.filename]
    k=(why,)+tuple('%s:%d'%(f.filename.split('/')[-1],f.lineno) for f in st[-3:])
    c[k]+=1
    if c[k]==1: print(k, [ '%s:%d'%(f.filename.split('/')[-1],f.lineno) for f in traceback.extract_stack()[-7:]], file=sys.stderr)
    return o(self,why)
engine.Engine.note_incomplete=n
sys.argv=['check']+sys.argv[1:]
exec(open('/verif/symex/runner_main.py').read()) if False else None
from symex import runner
sys.exit(runner.main(sys.argv[1:]))
