#!/usr/bin/env python3
"""mkseed.py SPEC.py: write seeded/<id>/ from a list SEEDS of dicts:
id, prop, file, edits [(old,new),...] (or files {file:[(old,new)]}), demo (shell), needs, breaks, extra {name: text}."""
import sys,os,subprocess
WT='/tmp/wt'
BASE=subprocess.check_output(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],text=True).split()[0]
env={}
exec(open(sys.argv[1]).read(),env)
if not os.path.isdir(WT): subprocess.check_call(['git','clone','-q','/repo',WT])
subprocess.check_call(['git','-C',WT,'fetch','-q','/repo','HEAD']); subprocess.check_call(['git','-C',WT,'reset','-q','--hard','FETCH_HEAD'])
only=sys.argv[2:]
for s in env['SEEDS']:
    if only and s['id'] not in only: continue
    subprocess.check_call(['git','-C',WT,'checkout','-q','--','.'])
    for f,eds in s.get('files',{s.get('file'):s.get('edits')}).items():
        t=open(f'{WT}/{f}',newline='').read(); b=subprocess.check_output(['git','-C',WT,'show',f'{BASE}:{f}'],text=True)
        for o,n in eds:
            if t.count(o)!=1: sys.exit(f"{s['id']}: {t.count(o)} matches of {o!r}")
            t=t.replace(o,n)
            import difflib
            for l in difflib.ndiff(o.split('\n'),n.split('\n')):
                if l.startswith('- ') and l[2:].strip() and l[2:].strip() not in b: print(f"{s['id']}: WARNING changes a line that is not original: {l[2:].strip()}")
        open(f'{WT}/{f}','w',newline='').write(t)
    d=f"/verif/seeded/{s['id']}"; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',WT,'diff'],text=True))
    open(d+'/demo.sh','w').write(s['demo']); os.chmod(d+'/demo.sh',0o755)
    for n,t in s.get('extra',{}).items(): open(f'{d}/{n}','w').write(t)
    import json
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    print(s['id'],'written')
subprocess.check_call(['git','-C',WT,'checkout','-q','--','.'])
