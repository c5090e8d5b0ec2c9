#!/bin/bash
# seedtest.sh [-c] <seed id...>: confirms seeds (builds, stable tests, demo both ways); with -c also runs the property's check.
check=; [ "$1" = -c ] && check=1 && shift
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  tmp=$(mktemp -d); cp -r "$d" "$tmp/demo"; rm -f "$tmp/demo"/*.diff "$tmp/demo/meta.json"
  (cd /repo && timeout 300 bash "$tmp/demo/demo.sh" >"$tmp/clean.log" 2>&1) && c=ok || c="BAD($(tail -2 $tmp/clean.log))"
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >"$tmp/b.log" 2>&1 && b=ok || b=BAD
  t=$(bash /opt/vp/test.sh "$tmp/o.json" 2>/dev/null | tail -1)
  (cd /repo && timeout 300 bash "$tmp/demo/demo.sh" >"$tmp/bug.log" 2>&1) && f=BAD || f=ok
  r=-
  if [ -n "$check" ]; then r=$(cd /verif && ./check.sh $p 2>&1 | grep -c "^VIOLATION property=$p"); fi
  git -C /repo checkout -q -- . ; git -C /repo clean -fdq
  echo "$id [$p] build=$b tests=($t) demo clean=$c bug=$f violations=$r"
  rm -rf "$tmp"
done
