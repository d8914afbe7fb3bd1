#!/bin/bash
# tryseeded.sh ID...   confirms planted bugs in a scratch copy: patch applies, build and tests pass, demo 0 without / nonzero with
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  w=$(mktemp -d /tmp/ts.XXXXXX)
  git -C /repo worktree add -q --detach "$w/r" HEAD
  cp -r "$V/seeded/$id" "$w/s"
  (cd "$w/r" && bash "$w/s/demo.sh" > "$w/clean.log" 2>&1); a=$?
  git -C "$w/r" apply "$w/s/patch.diff" || echo "$id does not apply"
  (cd "$w/r" && bash "$w/s/demo.sh" > "$w/bug.log" 2>&1); b=$?
  echo "$id clean=$a buggy=$b: $(tail -1 "$w/bug.log")"
  [ $a = 0 ] || tail -5 "$w/clean.log"
  git -C /repo worktree remove --force "$w/r"; rm -rf "$w"
done
