#!/bin/bash
# seedcheck ID...: in a scratch copy of /repo: demo passes clean, patch applies, builds, stable tests pass, demo fails
set -u
for id in "$@"; do
d=/verif/seeded/$id; w=/tmp/sc_$id; rm -rf "$w"; mkdir -p "$w"; cp -a /repo "$w/repo"; cp -a $d "$w/seed"; rm -f $w/seed/*.diff
sed "s#/repo#$w/repo#g" /opt/vp/build.sh > $w/build.sh; sed "s#/repo#$w/repo#g" /opt/vp/test.sh > $w/test.sh
( cd $w/repo && git checkout -q -- . && bash $w/build.sh >$w/b0 2>&1 && bash $w/seed/demo.sh >$w/d0 2>&1; r=$?; echo "$id clean demo: $r"; [ $r = 0 ] || tail -n 3 $w/d0; tail -n 3 $w/b0
git apply $d/patch.diff || echo "$id PATCH DOES NOT APPLY"
bash $w/build.sh >$w/b1 2>&1 || echo "$id BUILD FAILED"; grep -i "warning" $w/b1 | head -3
bash $w/seed/demo.sh >$w/d1 2>&1; echo "$id patched demo: $?"
[ "${NOTEST:-}" ] || { bash $w/test.sh $w/t.json >/dev/null 2>&1; python3 -c "import json;b=json.load(open('$w/t.json'));print('$id','passed',len(b['passed']),'failed',b['failed'])"; } )
[ "${KEEP:-}" ] || rm -rf "$w"
done
