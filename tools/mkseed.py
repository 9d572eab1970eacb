#!/usr/bin/env python3
"""mkseed.py ID PROP PKG: build seeded/ID from a python spec on stdin:
   EDITS=[(file, old, new[, count])...]; NEEDS; BREAKS; DEMO (go test source)"""
import sys,os,subprocess,json,shutil
id,prop,pkg=sys.argv[1:4]
ns={}
exec(sys.stdin.read(),ns)
d='/verif/seeded/'+id
os.makedirs(d,exist_ok=True)
W='/tmp/seedwork'
shutil.rmtree(W,ignore_errors=True)
subprocess.check_call(['git','clone','-q','/repo',W])
try:
    for e in ns['EDITS']:
        p=W+'/'+e[0]; s=open(p).read()
        assert s.count(e[1])==(e[3] if len(e)>3 else 1),(e[0],s.count(e[1]),e[1])
        open(p,'w').write(s.replace(e[1],e[2]))
    subprocess.check_call(['gofmt','-l']+[W+'/'+e[0] for e in ns['EDITS']])
    diff=subprocess.check_output(['git','-C',W,'diff'])
    open(d+'/patch.diff','wb').write(diff)
finally:
    shutil.rmtree(W,ignore_errors=True)
json.dump({"property":prop,"needs":ns['NEEDS'],"what_it_breaks":ns['BREAKS']},open(d+'/meta.json','w'),indent=1)
open(d+'/demo_test.go.txt','w').write(ns['DEMO'])
own = pkg in('.','extension/pubsub','extension/listener','util','codec')
open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0: behaves; nonzero: the property is broken
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
cp "$D/demo_test.go.txt" "$T/zz_demo_test.go"
printf '{"Replace":{"/repo/%s/zz_demo_test.go":"%s/zz_demo_test.go"' > "$T/o.json"
for f in /repo/%s/*_test.go; do [ -e "$f" ] && printf ',"%%s":""' "$f" >> "$T/o.json"; done
printf '}}' >> "$T/o.json"
cd /repo && GOFLAGS="$%s" timeout 200 go test -overlay "$T/o.json" -vet=off -count=1 -timeout 180s -run '^TestDemo' ./%s
''' .replace('%s/zz_demo_test.go":"%s/','%s/zz_demo_test.go":"\'"$T"\'/',1)%(pkg,pkg,'OWN' if own else 'EXT',pkg))
print('ok',id)
