#!/usr/bin/env python3
"""mkseed.py SPEC.py — make seeded/<id>/ from a python file defining id, prop, needs, breaks, edits [(file, old, new)], demo (dict of files)"""
import sys,os,subprocess,json,tempfile,shutil
ns={}
exec(open(sys.argv[1]).read(),ns)
d='/verif/seeded/'+ns['id']; os.makedirs(d,exist_ok=True)
t=tempfile.mkdtemp(dir='/tmp',prefix='mks.')
subprocess.check_call(['git','-C','/repo','worktree','prune'])
subprocess.check_call(['git','clone','-q','/repo',t+'/r'])
for f,o,n in ns['edits']:
    p=t+'/r/'+f; s=open(p).read(); assert s.count(o)>=1,(f,o); 
    assert s.count(o)==1 or ns.get('first'),(f,'count',s.count(o)); s=s.replace(o,n,1); open(p,'w').write(s)
    if f.endswith('.go'): subprocess.check_call('. /opt/vp/env.sh; gofmt -w '+p,shell=True,executable='/bin/bash')
open(d+'/patch.diff','wb').write(subprocess.check_output(['git','-C',t+'/r','diff']))
for k,v in ns['demo'].items():
    open(d+'/'+k,'w').write(v)
    if k.endswith('.sh'): os.chmod(d+'/'+k,0o755)
json.dump({'property':ns['prop'],'needs':ns['needs'],'what_it_breaks':ns['breaks']},open(d+'/meta.json','w'),indent=1)
shutil.rmtree(t)
