import subprocess,os,json,sys
S='/tmp/mkseed_repo'
def seed(id, prop, needs, breaks, edits, test=None, pkg='pkg/apk', sh=None):
    subprocess.run(f'mkdir -p {S}; cp -a /repo/. {S}/; cd {S}; git checkout -q -- .; git clean -fdq',shell=True,check=True)
    for f,o,n in edits:
        p=f'{S}/{f}'; s=open(p).read()
        assert s.count(o)>=1,(id,f,o)
        open(p,'w').write(s.replace(o,n,1))
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    subprocess.run('. /opt/vp/env.sh; gofmt -l pkg internal',shell=True,cwd=S)
    diff=subprocess.run(['git','diff'],cwd=S,capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(diff)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    if sh is None:
        sh=f'''#!/bin/bash
# exit 0 when the property holds on this input, non-zero when it is broken
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d); trap '/bin/rm -rf "$t"' EXIT
export TMPDIR="$t"
printf '{{"Replace":{{"%s/{pkg}/zz_demo_test.go":"%s/demo_test.go"}}}}' "$PWD" "$d" > "$t/o.json"
timeout 250 go test -vet=off -overlay "$t/o.json" -count=1 -run '^TestDemo$' ./{pkg}
'''
        open(d+'/demo_test.go','w').write(test)
    open(d+'/demo.sh','w').write(sh)
