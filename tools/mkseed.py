import subprocess, json, os, shutil
def seed(id, prop, edits, needs, breaks, demo, lang='py'):
    """edits: list of (file, old, new)"""
    d='/verif/seeded/'+id
    os.makedirs(d, exist_ok=True)
    t='/tmp/w/seedwt'
    subprocess.run(['rm','-rf',t]); subprocess.run(['git','-C','/repo','worktree','prune'])
    subprocess.check_call(['git','clone','-q','/repo',t])
    for f,o,n in edits:
        p=os.path.join(t,f); s=open(p).read()
        assert s.count(o)==1, (id,f,s.count(o))
        open(p,'w').write(s.replace(o,n))
    diff=subprocess.check_output(['git','-C',t,'diff'],text=True)
    open(d+'/patch.diff','w').write(diff)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.py','w').write(demo)
    open(d+'/demo.sh','w').write('#!/bin/bash\n. /opt/vp/env.sh 2>/dev/null\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d+'/demo.sh',0o755)
    subprocess.run(['rm','-rf',t])
HEAD='''import sys
sys.path.insert(0, '.')
import numpy as np
'''
