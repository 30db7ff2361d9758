#!/bin/bash
# Reverts each repair in a scratch copy and shows which checks notice
# usage: reverts.sh "commit:C01,C02" ...
for x in "$@"; do
  c=${x%%:*}; ps=${x##*:}
  w=/tmp/wwv-revert-$c
  rm -rf "$w"; cp -a /repo "$w"
  if ! git -C "$w" -c user.email=a@b -c user.name=x revert --no-edit $c >/tmp/revert.log 2>&1; then
    echo "$c: conflict"; rm -rf "$w"; continue
  fi
  for p in ${ps//,/ }; do
    o=$(WWV_REPO=$w python3 /verif/run.py check $p 2>&1); rc=$?
    echo "$c $p rc=$rc $(echo "$o" | grep -A1 VIOLATION | tail -1 | cut -c1-200)"
    [ $rc = 2 ] && echo "$o" | grep -A6 ERROR | cut -c1-400
  done
  rm -rf "$w"
done
