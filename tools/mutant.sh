#!/bin/bash
# tools/mutant.sh (revert:COMMIT | PATCHFILE) CHECK...   runs checks against a scratch copy of /repo with a change
set -u
P="$1"; case "$P" in revert:*) ;; *) P=$(realpath "$P"); shift; set -- "$P" "$@" ;; esac
D=$(mktemp -d /tmp/mut.XXXXXX)
git clone -q ${MREPO:-/repo} "$D/r"
cd "$D/r"
case "$1" in
  revert:*) git revert -n "${1#revert:}" >/dev/null 2>&1 || { echo "REVERT-CONFLICT $1"; rm -rf "$D"; exit 3; } ;;
  *) git apply "$1" || { echo "APPLY-FAILED $1"; rm -rf "$D"; exit 3; } ;;
esac
shift
for c in "$@"; do
  o=$(VERIF_REPO="$D/r" timeout 900 /verif/bin/check $c quick 2>"$D/err"); rc=$?
  echo "$c rc=$rc $(echo "$o" | grep -m1 -E 'VIOLATION|held')"
  [ $rc -gt 1 ] && tail -5 "$D/err"
  [ -n "${SHOW:-}" ] && echo "$o" | head -${SHOW}
done
rm -rf "$D"
