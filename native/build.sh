#!/bin/bash
# usage: build.sh OUTDIR [extra flags]  - compiles /repo's current library sources plus e2e.cc
set -euo pipefail
OUT=$1; shift
CL=/opt/vp/pydeps/lib/python3.12/site-packages/clingo
SO=$CL/_clingo.cpython-312-x86_64-linux-gnu.so
mkdir -p "$OUT"
R=${REPO:-/repo}
FL="-std=gnu++17 -O1 -g -DNDEBUG -I$R/libclingcon -I$R/third_party/wide-integer -I$CL -w ${XFLAGS:-}"
HERE=$(cd "$(dirname "$0")" && pwd)
pids=()
for f in parsing constraints solver propagator; do g++ $FL -c "$R/libclingcon/src/$f.cc" -o "$OUT/$f.o" & pids+=($!); done
g++ $FL -c "$HERE/e2e.cc" -o "$OUT/e2e.o" & pids+=($!)
for p in "${pids[@]}"; do wait $p; done
g++ ${XFLAGS:-} "$OUT"/{e2e,parsing,constraints,solver,propagator}.o -o "$OUT/e2e" -Wl,--no-as-needed,$SO,-lpython3.12,-rpath,$CL -pthread
