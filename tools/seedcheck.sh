#!/bin/bash
# seedcheck.sh ID... : validate planted bugs in a scratch copy and say which checks catch them
. /opt/vp/env.sh
S=$(mktemp -d /tmp/seedchk.XXXXXX); trap '/bin/rm -rf "$S"' EXIT
cp -a /repo "$S/repo"; R=$S/repo
for id in "$@"; do
  d=/verif/seeded/$id
  cd $R && git checkout -q -- . && git clean -fdq
  o=$S/demo; /bin/rm -rf "$o"; mkdir $o; cp -a $d/. $o/; /bin/rm -f "$o"/*.diff "$o"/meta.json
  bash $o/demo.sh >$S/clean.log 2>&1; c=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  go build ./... >$S/b.log 2>&1 || { echo "$id: does not build"; head -5 $S/b.log; continue; }
  go test -json -vet=off -count=1 ./... > $S/t.log 2>/dev/null
  python3 /opt/vp/results.py $S/out.json gojson:$S/t.log >/dev/null 2>&1
  m=$(python3 - $S/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
f=lambda x:set((lambda y:y if isinstance(y,list) else y.keys())(x.get('passed') or x.get('stable') or x))
print(len(f(b)-f(o)))
P
)
  bash $o/demo.sh >$S/bug.log 2>&1; k=$?
  # lines our own fix commits added
  own=$(git diff -U0 | awk '/^--- a\//{f=substr($2,3)} /^@@/{split($2,a,","); s=-a[1]; n=(a[2]==""?1:a[2]); for(i=0;i<n;i++) print f":"s+i}' | while IFS=: read f l; do git blame -s -L$l,$l HEAD -- $f; done | grep -vc '^^')
  caught=$(/verif/bin/checker -repo $R -property ALL -noevidence 2>/dev/null | grep '^VIOLATION' | sed 's/VIOLATION property=\([^ ]*\).*/\1/' | sort -u | tr '\n' ' ')
  echo "$id: demo clean=$c bug=$k missing-tests=$m own-lines=$own property=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])") caught-by: $caught"
  [ $c = 0 ] || tail -5 $S/clean.log
done
