import sys; sys.path.insert(0,'/verif')
from irv import tasks
import importlib
for m in sys.argv[1].split(','): importlib.import_module('irv.'+m)
import re
names=[n for n in tasks.REG if re.search(sys.argv[2],n)]
r=tasks.run_tasks(names, per_task=float(sys.argv[3]) if len(sys.argv)>3 else 120)
for n in names:
    x=r[n]; bad=[o for o in x['obls'] if not o[1]]
    print('%-30s obls %d bad %d wall %.1f %s'%(n,len(x['obls']),len(bad),x['wall'],x['err'] or ''))
    seen=set()
    for o in bad:
        if o[0] in seen or len(seen)>6: continue
        seen.add(o[0])
        print('   FAIL',o[0],'|',o[2],o[4],'|',o[3][:600])
