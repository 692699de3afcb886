#!/bin/bash
# try.sh PATCH|- PROP... : run checks on a scratch copy of /repo with a patch applied
# usage for quick edits: try.sh 'sed:FILE:EXPR' PROP...
set -u
R=/tmp/try/repo
mkdir -p /tmp/try
rsync -a --delete --exclude target --exclude .git /repo/ $R/ 2>/dev/null || { rm -rf /tmp/try/repo; mkdir -p $R; (cd /repo && tar cf - --exclude=./target --exclude=./.git .) | (cd $R && tar xf -); }
p=$1; shift
case "$p" in
  sed:*) IFS=: read -r _ file expr <<<"$p"; cp $R/$file /tmp/try/before; sed -i -E "$expr" $R/$file; diff /tmp/try/before $R/$file | head -${DIFFLINES:-10};;
  py:*) (cd $R && python3 "${p#py:}");;
  -) ;;
  *) (cd $R && patch -p1 -s --no-backup-if-mismatch < "$p") || { echo "PATCH FAILED $p"; exit 3; };;
esac
export VERIF_REPO=$R VERIF_BUILD=/tmp/try/build
for id in "$@"; do python3 /verif/check.py $id 2>&1 | cut -c1-400 | tail -${LINES_OUT:-6}; done
