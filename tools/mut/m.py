import sys,subprocess,os,shutil,re
# usage: from m import *; M('name', 'C01', [(file, old, new),...], expect)
R=os.environ.get('MUTREPO','/tmp/mut/repo')
def sync():
    subprocess.run(f'mkdir -p {R}; cp -a /repo/. {R}/; cd {R}; git checkout -q -- .; git clean -fdq',shell=True,check=True)
def M(name, props, edits, expect=1, tests=False):
    if os.environ.get('ONLY') and not re.search(os.environ['ONLY'],name): return
    if os.environ.get('ALLREF'):
        # only the refactorings, against the given checks
        if expect!=0: return
        props=os.environ['ALLREF']
    sync()
    for f,o,n in edits:
        p=f'{R}/{f}'; s=open(p).read()
        if o not in s: print('!!',name,'pattern not found in',f); return
        open(p,'w').write(s.replace(o,n,1))
    env=dict(os.environ); env['PATH']='/opt/veriftools/go1.23.12/bin:'+env['PATH']; env.update(GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off')
    b=subprocess.run(['go','build','./...'],cwd=R,env=env,capture_output=True,text=True)
    if b.returncode: print('!!',name,'does not build',b.stderr[:300]); return
    t=''
    if tests:
        r=subprocess.run(['go','test','./...'],cwd=R,env=env,capture_output=True,text=True)
        t=' tests='+('ok' if r.returncode==0 else 'FAIL')
    for p in props.split():
        r=subprocess.run([os.environ.get('CHK','/verif/bin/checker'),'-repo',R,'-property',p,'-noevidence'],capture_output=True,text=True)
        d=re.findall(r'\[(?:violated|undecided)\] rule (.*)\n  construct: (.*)\n  at: (.*)\n  (.*)',r.stdout)
        ok = r.returncode==expect
        print(('ok  ' if ok else 'XXX ')+name,p,'rc',r.returncode,t,'; '.join(f'{a}|{b}@{c}: {e[:110]}' for a,b,c,e in d[:3]))
