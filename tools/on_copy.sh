#!/bin/bash
# Development: run checks against a scratch copy of /repo.
#   on_copy.sh COPY ID...   (prints one line per check)
copy=$1; shift
res=$(mktemp -d /tmp/vhres.XXXX)
for id in "$@"; do
  o=$(VH_DEV_REPO=$copy VH_DEV_RESULTS=$res python3 "$(dirname "$0")/../check.py" $id quick 2>&1); rc=$?
  case $rc in
    0) echo "$id quiet";;
    1) echo "$id CAUGHT $(echo "$o" | grep -m1 '^'$id' \[' | cut -c1-${WIDTH:-160})";;
    *) echo "$id rc=$rc $(echo "$o" | tail -3 | cut -c1-400)";;
  esac
done
rm -rf "$res"
