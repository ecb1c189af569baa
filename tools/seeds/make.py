#!/usr/bin/env python3
"""Creates or refreshes the folders of /verif/seeded from the table of seeds.

Each seed is a Python file of this folder that defines: property, needs, what_it_breaks, edits (list of
file, old text, new text), and files (name to text) which must contain demo.sh."""
import sys,os,json,subprocess,shutil,importlib.util
here=os.path.dirname(os.path.abspath(__file__)); seeded=os.path.join(here,'..','..','seeded')
def load(n):
    s=importlib.util.spec_from_file_location('seed_'+n,os.path.join(here,n+'.py')); m=importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
names=sys.argv[1:] or sorted(f[:-3] for f in os.listdir(here) if f.endswith('.py') and f!='make.py')
for n in names:
    m=load(n); out=os.path.join(seeded,n)
    shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
    tmp='/tmp/seedwork'; shutil.rmtree(tmp,ignore_errors=True)
    subprocess.check_call(['git','-C','/repo','worktree','add','-q','--detach',tmp,'HEAD'])
    try:
        for f,old,new in m.edits:
            p=os.path.join(tmp,f); t=open(p).read()
            assert t.count(old)==1,(n,f,t.count(old),old)
            open(p,'w').write(t.replace(old,new))
        d=subprocess.check_output(['git','-C',tmp,'diff']).decode()
    finally:
        subprocess.check_call(['git','-C','/repo','worktree','remove','--force',tmp])
    open(os.path.join(out,'patch.diff'),'w').write(d)
    for f,t in m.files.items():
        p=os.path.join(out,f); os.makedirs(os.path.dirname(p),exist_ok=True); open(p,'w').write(t)
    shutil.copy(os.path.join(here,'lib.sh'),out)
    os.chmod(os.path.join(out,'demo.sh'),0o755)
    json.dump(dict(property=m.property,needs=m.needs,what_it_breaks=m.what_it_breaks),open(os.path.join(out,'meta.json'),'w'),indent=1)
    print('made',n)
