#!/bin/bash
# Builds one check from /repo's current sources into a scratch directory and
# runs it: check.sh <ID> [arguments of the check binary]
set -u
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
ID="$1"; shift
REPO="${REPO_DIR:-/repo}"
export VERIF_DIR="${VERIF_DIR:-$HERE}"
BUILD="$(mktemp -d "${TMPDIR:-/tmp}/verif-build-$ID-XXXXXX")" || exit 2
trap 'rm -rf "$BUILD"' EXIT
low="$(echo "$ID" | tr A-Z a-z)"
san="${PBT_SAN:--fsanitize=address,bounds,null,return,unreachable,object-size,bool,enum,integer-divide-by-zero,vptr -fno-sanitize-recover=all}"
# Races are judged by the thread sanitizer.
[ "$ID" = C22 ] && san="${PBT_SAN:--fsanitize=thread}"
common="-g1 -O1 -pthread -include limits -DDEBUG -D_GLIBCXX_ASSERTIONS"
libflags="-std=c++11 -w $common $san -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern -I$REPO/src"
harflags="-std=c++17 -w $common -include cstdint -include functional -include stdexcept -include iterator -include algorithm -include cassert -include array -include memory -include string -include vector -include ctime -I$REPO/src"
# Work is counted, in the library only.
[ "$ID" = C28 ] && san="${PBT_SAN:--DNOSAN}" && libflags="-std=c++11 -w $common -fno-builtin -fsanitize-coverage=trace-pc -I$REPO/src" && harsan="-fsanitize-coverage=trace-pc"
# Allocations are made to fail.
link=""; [ "$ID" = C31 ] && link="-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc"
{
  for f in "$REPO"/src/*.cc; do echo "g++ $libflags -c $f -o $BUILD/lib_$(basename "$f" .cc).o"; done
  for f in "$HERE"/gen/bridge.cc "$HERE"/checks/common.cc "$HERE/checks/$low.cc"; do
    echo "g++ $harflags $san ${harsan:-} -c $f -o $BUILD/har_$(basename "$f" .cc).o"; done
  for f in "$HERE"/pbt/*.cc "$HERE"/ref/*.cc "$HERE"/gen/gen.cc "$HERE"/checks/interpose.cc; do
    echo "g++ $harflags -c $f -o $BUILD/har_$(basename "$f" .cc).o"; done
  [ "$ID" = C29 ] && echo "g++ $libflags -c $REPO/sample/sample.cc -o $BUILD/sample.obj"
} > "$BUILD/cmds"
# Longest compilations first.
{ grep -E 'pugixml|engine|/checks/c[0-9]' "$BUILD/cmds"; grep -vE 'pugixml|engine|/checks/c[0-9]' "$BUILD/cmds"; } |
  xargs -P "$(nproc)" -d '\n' -I{} sh -c '{} || exit 255' 2> "$BUILD/err"
rc=$?
if [ $rc -ne 0 ]; then cat "$BUILD/err" >&2; echo "check.sh: build of $ID failed" >&2; exit 2; fi
g++ $san $link -pthread "$BUILD"/lib_*.o "$BUILD"/har_*.o -lcrypto -lz -o "$BUILD/check" || { echo "check.sh: link of $ID failed" >&2; exit 2; }
if [ "$ID" = C29 ]; then
  g++ $san -pthread "$BUILD/sample.obj" "$BUILD"/lib_*.o -lcrypto -lz -o "$BUILD/sample" || { echo "check.sh: link of the sample failed" >&2; exit 2; }
  export SAMPLE_PROGRAM="$BUILD/sample"
fi
# The sanitizers enlarge stack frames several times over; nesting within the
# limits of the file formats must not overflow the stack because of that.
ulimit -s 32768 2> /dev/null
"$BUILD/check" "$@"
