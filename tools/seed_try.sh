#!/bin/bash
# tools/seed_try.sh ID [notest] : confirms a planted bug in a scratch copy of /repo, and runs the check of its property on it.
ID=$1; S=${PV_VERIF:-/verif}/seeded/$ID; W=/tmp/w/seed_$ID; L=/tmp/w/seed_$ID.log
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf "$W"; cp -a ${PV_REPO:-/repo} "$W"; cd "$W" || exit 1
git -C "$W" checkout -q -- . 
bash $S/demo.sh >$L 2>&1; d0=$?
git apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
# only lines of the original repository
orig=$(git diff -U0 | python3 -c "
import sys,re,subprocess
f=None;bad=0;n=0
for l in sys.stdin:
    if l.startswith('--- a/'): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
    if m:
        a=int(m[1]);k=int(m[2] or 1)
        for i in range(a,a+k):
            n+=1
            b=subprocess.run(['git','blame','-s','-L',f'{i},{i}','HEAD','--',f],capture_output=True,text=True).stdout
            bad+=not b.startswith('^') and '48f4186' not in b[:12]
print(f'{n-bad} original lines, {bad} of ours')")
bash $S/demo.sh >>$L 2>&1; d1=$?
t=skipped
if [ "$2" != notest ]; then
  sed -e "s#cd /repo#cd $W#; s#/repo#$W#g; s#-m pytest#-m pytest#" /opt/vp/test.sh > /tmp/w/test_$ID.sh
  t=$(PYTHONPATH=$W/src bash /tmp/w/test_$ID.sh /tmp/w/test_$ID.json 2>&1 | tail -1)
fi
cd ${PV_VERIF:-/verif}
v=$(PV_REPO=$W timeout 900 /opt/venv/bin/python -m pv.run $P 2>>$L); c=$?
echo "$ID ($P): $orig; demo clean=$d0 patched=$d1; tests: $t; check exit=$c $(echo "$v" | grep VIOLATION | head -1)"
echo "$v" >>$L
rm -rf "$W" /tmp/w/test_$ID.sh
