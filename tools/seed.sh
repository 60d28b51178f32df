#!/bin/bash
# Usage: seed.sh ID [CHECK...]: verifies /verif/seeded/ID in scratch copies (builds, passes the stable tests, demo fails with
# and passes without, lines changed are of the original repository) and, given checks, runs them against it in a mount namespace where the changed copy is /repo.
. /verif/env.sh
id=$1; shift; d=/verif/seeded/$id; ok=1
w=/tmp/seed.$id; rm -rf "/tmp/seed.$id"; mkdir -p $w; cp -a /repo $w/repo; cp -a $d $w/demo; rm -f $w/demo/patch.diff $w/demo/meta.json
( cd $w/repo; bash $w/demo/demo.sh >$w/clean.log 2>&1 ) || { echo "$id: demo fails on the clean tree"; tail -20 $w/clean.log; ok=0; }
( cd $w/repo; git apply $d/patch.diff ) || { echo "$id: does not apply"; ok=0; }
( cd $w/repo; go build ./... >$w/build.log 2>&1 ) || { echo "$id: does not build"; cat $w/build.log; ok=0; }
( cd $w/repo; bash $w/demo/demo.sh >$w/bug.log 2>&1 ) && { echo "$id: demo passes with the bug"; ok=0; }
tail -4 $w/bug.log | sed 's/^/   | /'
( cd $w/repo; mapfile -t P < <(go list ./... | grep -v hbci/domain$); go test -json -vet=off -count=1 "${P[@]}" >$w/t.log 2>/dev/null
python3 - $w/t.log <<'E'
import json,sys
p=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='pass' and e.get('Test'): p.add((e['Package'],e['Test']))
names={a+'/'+b for a,b in p}
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
m=[x for x in b if x not in names]
print('missing tests', m[:5], len(m)) if m else None
sys.exit(bool(m))
E
) || { echo "$id: tests fail"; ok=0; }
# original lines
python3 - $d/patch.diff <<'E' || { echo "$id: changes lines that are not original"; ok=0; }
import subprocess,sys,re
f=None; bad=0; n=0
for l in open(sys.argv[1]):
    if l.startswith('--- '): f=l[6:].strip(); continue
    if l.startswith('+++ ') or l.startswith('diff ') or l.startswith('index '): continue
    m=re.match(r'@@ -(\d+)',l)
    if m: ln=int(m[1]); continue
    if l.startswith('-'):
        n+=1
        b=subprocess.check_output(['git','-C','/repo','blame','-s','-L',f'{ln},{ln}','--',f],text=True)
        if not b.startswith('^516a2db') and '516a2db' not in b.split()[0]: bad+=1; print(b.strip())
        ln+=1
    elif l.startswith('+'): pass
    else: ln+=1
print('removed lines',n,'not original',bad)
sys.exit(bad==n and n>0)
E
[ $ok = 1 ] && echo "$id: seed is good"
for c in "$@"; do
 REPO_COPY=$w/repo VERIF_SEED=${VERIF_SEED:-1} timeout 900 unshare -Urm bash -c 'mount --bind "$REPO_COPY" /repo && cd /verif && ./check.sh "$1"' _ "$c" > $w/check.log 2>&1
 echo "$id: check $c exit $?"; grep -m2 VIOLATION $w/check.log; tail -1 $w/check.log
done
rm -rf "/tmp/seed.$id"
