"""mkseed(id, prop, [(file, old, new)], needs, breaks, main_rs): writes seeded/<id>/ from edits made in a scratch copy of /repo's HEAD."""
import json,os,shutil,subprocess,tempfile
def mkseed(id,prop,edits,needs,breaks,main,demo=None,extra=None):
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    t=tempfile.mkdtemp(prefix='seedgit',dir='/tmp')
    try:
        subprocess.check_call(['git','-C','/repo','worktree','add','-q','--detach',t+'/w'],stdout=subprocess.DEVNULL)
        w=t+'/w'
        for f,old,new in edits:
            p=f'{w}/{f}'; s=open(p).read()
            assert s.count(old)>=1,(id,f,'not found',old)
            assert s.count(old)==1,(id,f,'ambiguous',s.count(old))
            open(p,'w').write(s.replace(old,new))
        diff=subprocess.check_output(['git','-C',w,'diff'],text=True)
        open(d+'/patch.diff','w').write(diff)
    finally:
        subprocess.call(['git','-C','/repo','worktree','remove','--force',t+'/w'])
        shutil.rmtree(t,ignore_errors=True)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    if demo: open(d+'/demo.sh','w').write(demo)
    else: shutil.copy('/verif/tools/demo_template.sh',d+'/demo.sh')
    os.chmod(d+'/demo.sh',0o755)
    if main: open(d+'/main.rs','w').write(main)
    for k,v in (extra or {}).items(): open(f'{d}/{k}','w').write(v)
