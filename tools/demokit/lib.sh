# Sourced by demo.sh (with $here set): helpers to build a simulator of the working tree in the current directory and run it.
repo=$(pwd)
kit=$here/kit
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
fail() { echo "DEMO FAILED: $*"; exit 1; }
# build SIM [flags]
build() { DEMO_FLAGS="$2" bash "$kit/build.sh" "$repo" "$kit" "$t/bin-$1" "$1" > "$t/build.log" 2>&1 || { tail -20 "$t/build.log"; fail "build of $1"; }; }
# sim SIM args...   runs in the current directory, output in log, status in $rc
sim() { local s=$1; shift; rc=0; timeout 120 "$t/bin-$s/$s" "$@" > log 2>&1 || rc=$?; }
# resume_identical SIM FRAME args...   scene in $t/scene; every file must come out the same when resumed from that frame
resume_identical()
{
  local s=$1 k=$2; shift 2
  mkdir -p "$t/ref/out"; cd "$t/ref"; sim "$s" ../scene/scene.xml -o out -s 1 "$@"
  [ $rc = 0 ] || { cat log; fail "uninterrupted run"; }
  mkdir -p "$t/res/out"; cp "out/serial_$k.bin" "$t/res/out/"; cd "$t/res"; sim "$s" -r "out/serial_$k.bin"
  [ $rc = 0 ] || { cat log; fail "resumed run"; }
  local n=0 f
  for f in out/*; do cmp "$f" "$t/ref/$f" || fail "$f differs after resuming from frame $k"; n=$((n+1)); done
  [ $n -ge 3 ] || fail "resumed run wrote too little"
}
# vals FILE NAME   the values of a recorded dataset
vals() { grep -A1 -E "^D ([^ ]*/)?$2 " "$1" | tail -1; }
# ask CONDITION WORDS...   awk condition over the words
ask() { local c=$1; shift; [ "$(echo "$@" | awk "{print (($c) ? 1 : 0)}")" = 1 ]; }
