#!/bin/bash
# seedtest.sh ID...: confirm planted bugs in /repo itself (clean tree needed): applies, builds,
# stable tests pass, demo passes without / fails with the patch, and which checks catch it.
cd /verif
for id in "$@"; do
  S=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
  (cd /repo && bash $S/demo.sh >/tmp/seed.$id.clean 2>&1); a=$?
  git -C /repo apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  b=0; bash /opt/vp/build.sh >/tmp/seed.$id.build 2>&1 || b=1
  t=skip
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh /tmp/seed.$id.json >/dev/null 2>&1
    t=$(python3 - <<P
import json
s=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=set(json.load(open('/tmp/seed.$id.json'))['passed'])
print(' '.join(x for x in s if x not in o) or 'ok')
P
)
  fi
  (cd /repo && timeout 300 bash $S/demo.sh >/tmp/seed.$id.bug 2>&1); d=$?
  c=-; 
  if [ -z "$NOCHECK" ]; then timeout 900 /verif/check $prop quick >/tmp/seed.$id.check 2>&1; c=$?; fi
  git -C /repo checkout -- .
  echo "$id ($prop): demo clean=$a bug=$d build=$b tests=$t check=$c $(grep VIOLATION /tmp/seed.$id.check 2>/dev/null | sed 's/.*txt//')"
done
