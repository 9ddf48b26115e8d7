#!/usr/bin/env python3
"""Planted bugs.  seedtool.py new FILE.py     make patches from a list of edits
                 seedtool.py verify ID...    apply to /repo, build, test, demo, checks, undo
Used while developing only; no check reads it."""
import os,sys,json,subprocess,shutil,time
V=os.path.dirname(os.path.abspath(__file__)); S=V+'/seeded'; R=os.environ.get('SEED_REPO','/repo')
def sh(c,cwd=R,t=900,env=None):
    try: p=subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',timeout=t,env=env,start_new_session=True); return p.returncode,p.stdout
    except subprocess.TimeoutExpired as e: return 124,str(e.stdout)
def clean(): sh('git checkout -q -- .')
def new(f):
    g={}; exec(open(f).read(),g)
    base={}
    for b in g['BUGS']:
        i=b['id']; d=f'{S}/{i}'; clean()
        assert sh('git status --porcelain -uno')[1]==''
        for fn,old,nw in b['edits']:
            p=f'{R}/{fn}'; t=open(p).read(); assert t.count(old)==1,(i,fn,old,t.count(old)); open(p,'w').write(t.replace(old,nw))
        os.makedirs(d,exist_ok=True)
        diff=sh('git diff')[1]; clean(); open(d+'/patch.diff','w').write(diff)
        for l in diff.split('\n'):   # removed lines must be original ones
            if l.startswith('--- a/'): orig=sh(f'git show cb31983:{l[6:]}')[1].split('\n')
            elif l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in orig: print(f'{i}: not an original line: {l}')
        json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
        for k,v in b['files'].items(): open(d+'/'+k,'w').write(v); os.chmod(d+'/'+k,0o755 if k.endswith('.sh') else 0o644)
def verify(i,checks=None,demo=True):
    d=f'{S}/{i}'; m=json.load(open(d+'/meta.json')); out=[]; t=f'/tmp/demo-{i}'; shutil.rmtree(t,ignore_errors=True); os.mkdir(t)
    for f in os.listdir(d):
        if not f.endswith(('.diff','.patch')) and f!='meta.json': shutil.copy(d+'/'+f,t)
    try:
        if demo:
            sh('bash /opt/vp/build.sh'); rc,o=sh(f'bash {t}/demo.sh',t=300); out.append(f'demo clean={rc}'); 
            if rc: out.append(o[-300:])
        rc,o=sh(f'git apply {d}/patch.diff'); assert rc==0,o
        if demo:
            rc,o=sh('bash /opt/vp/build.sh'); out.append(f'build={rc}')
            rc,o=sh('bash /opt/vp/test.sh /tmp/seed.json'); out.append('tests: '+o.strip().split('\n')[-1]+(' FAIL' if 'FAIL' in o else ''))
            rc,o=sh(f'bash {t}/demo.sh',t=300); out.append(f'demo bug={rc}')
            if not rc: out.append(o[-300:])
        for p in checks or [m['property']]:
            t0=time.time(); rc,o=sh(f'python3 run.py {p}',cwd=V); out.append(f'{p}: {rc} {time.time()-t0:.0f}s '+' '.join(o.strip().split('\n')[-2:])[:260])
    finally:
        clean(); shutil.rmtree(t,ignore_errors=True)
        if demo: sh('bash /opt/vp/build.sh')
    print(i,' | '.join(out),flush=True)
if __name__=='__main__':
    if sys.argv[1]=='new': new(sys.argv[2])
    else:
        a=sys.argv[2:]; nd='--no-demo' in a; a=[x for x in a if x[0]!='-'] or sorted(os.listdir(S))
        for i in a: verify(i,demo=not nd)
