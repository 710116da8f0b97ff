#!/bin/bash
# usage: build2.sh HARNESS.cc OUTDIR [flags]: development build of a harness with /repo's sources
set -euo pipefail
H=$1; OUT=$2; shift 2
CL=/opt/vp/pydeps/lib/python3.12/site-packages/clingo
R=${REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
FL="-std=c++17 -O1 -g -DNDEBUG -w -I$R/libclingcon -I$R/libclingcon/src -I$R/third_party/wide-integer -I$CL -I$HERE $*"
pids=()
for f in $R/libclingcon/src/*.cc; do b=$(basename $f .cc); case " ${OWN:-} " in *" $b "*) continue;; esac; [ -n "${ONLYH:-}" ] || { g++ $FL -c $f -o $OUT/$b.o & pids+=($!); }; done
g++ $FL -c "$HERE/$H" -o "$OUT/h.$H.o" & pids+=($!)
for p in "${pids[@]}"; do wait $p; done
O=""; for f in $R/libclingcon/src/*.cc; do b=$(basename $f .cc); case " ${OWN:-} " in *" $b "*) continue;; esac; O="$O $OUT/$b.o"; done
g++ $* "$OUT/h.$H.o" $O -o "$OUT/${H%.cc}" -Wl,--no-as-needed,$CL/_clingo.cpython-312-x86_64-linux-gnu.so,-lpython3.12,-rpath,$CL -pthread
