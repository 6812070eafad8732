#!/bin/bash
# development aid: try planted bugs in a private copy of /repo (mount namespace); usage: seedtest.sh [-n] ID...   (-n: no test run)
NT=${NT:-0}; [ "$1" = -n ] && { NT=1; shift; }
HERE=$(cd "$(dirname "$0")/.." && pwd)
[ -z "$IN_NS" ] && { W=$(mktemp -d /tmp/seedwt.XXXXXX); cp -a /repo "$W/repo"; IN_NS=1 W=$W NT=$NT unshare -m bash "$0" "$@"; rm -rf "$W"; exit; }
mount --bind "$W/repo" /repo
cd /repo && git checkout -q -- . 
for id in "$@"; do
  S=$HERE/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  D=$(mktemp -d /tmp/seeddemo.XXXXXX); cp "$S"/* "$D"; rm -f "$D"/*.diff "$D"/meta.json
  bash /opt/vp/build.sh >/tmp/seed.$id.log 2>&1
  (cd /repo && timeout 300 bash "$D/demo.sh" >/tmp/seed.$id.clean 2>&1); c=$?
  git apply "$S/patch.diff" || { echo "$id: patch does not apply"; continue; }
  if bash /opt/vp/build.sh >/tmp/seed.$id.log 2>&1; then b=ok; else b=BUILDFAIL; fi
  (cd /repo && timeout 300 bash "$D/demo.sh" >/tmp/seed.$id.bug 2>&1); d=$?
  t=skipped
  if [ $NT = 0 ]; then bash /opt/vp/test.sh /tmp/seed.$id.json >/tmp/seed.$id.test 2>&1; t=$(python3 -c "
import json
print('missing', sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-set(json.load(open('/tmp/seed.$id.json'))['passed']))[:5])"); fi
  (cd $HERE && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 symcheck.py $prop --tier quick >/tmp/seed.$id.check 2>&1); k=$?
  echo "$id ($prop): build=$b demo clean=$c bug=$d tests=$t check=$k $(grep -m1 -A1 VIOLATION /tmp/seed.$id.check | tr '\n' ' ' | cut -c1-260)"
  git checkout -q -- .
  rm -rf "$D"
done
