#!/bin/bash
# Usage: revert.sh [COMMIT…]: takes back each repair of known-findings.txt in a scratch copy and runs the check of its property against the copy
# (in a mount namespace where it is /repo); the check has to report it. Repairs that cannot be taken back alone are skipped.
. /verif/env.sh
sed -n 's/^fixed: property=\(C[0-9]*\) \([0-9a-f]*\) .*/\1 \2/p' /verif/known-findings.txt | while read -r prop commit; do
 [ $# = 0 ] || [[ " $* " == *" $commit "* ]] || continue
 w=/tmp/revert.$commit; rm -rf "/tmp/revert.$commit"; cp -a /repo $w
 s=$(git -C /repo log -1 --format=%s $commit)
 if ! git -C $w revert -n $commit >/dev/null 2>&1; then echo "skip $prop $commit conflict: $s"
 elif ! (cd $w && go build ./... 2>/dev/null); then echo "skip $prop $commit does not build: $s"
 else
  REPO_COPY=$w VERIF_SEED=${VERIF_SEED:-1} timeout 900 unshare -Urm bash -c 'mount --bind "$REPO_COPY" /repo && cd /verif && ./check.sh "$1"' _ "$prop" >$w.log 2>&1 </dev/null
  r=$?; [ $r = 1 ] && echo "caught $prop $commit: $s" || { echo "MISSED $prop $commit exit $r: $s"; }
 fi
 rm -rf "/tmp/revert.$commit"
done
