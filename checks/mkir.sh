#!/bin/bash
# mkir.sh OUT.bc [REPO [PROBE...]] : compiles every library source of the working tree, and the given
# probes (files of checks/probes, compiled as a client), to one LLVM module.  A probe that does not
# compile is left out; a library source that does not compile is an error.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(realpath -m "$1"); repo=${2:-/repo}; shift; [ $# -gt 0 ] && shift
d=$(mktemp -d /tmp/aia_ir.XXXXXX); trap 'find "$d" -type f -delete; rmdir "$d"' EXIT
cd "$repo"; i=0; pids=(); opt=()
C="-c -emit-llvm -O0 -Xclang -disable-O0-optnone -g -fno-discard-value-names -ffp-contract=off -w -fPIC -fvisibility=hidden -I$repo"
for f in $(find src -name '*.c' | sort); do
  /usr/bin/clang-18 $C -std=gnu17 -DAITISA_API_SHARED_LIBS -DAITISA_API_SHARED_LIBS_EXPORTS -Daitisa_api_EXPORTS "$f" -o "$d/$i.bc" & pids+=($!); i=$((i+1))
done
for p in "$@"; do
  case $p in
    *.c) /usr/bin/clang-18 $C -std=gnu17 -DAITISA_API_SHARED_LIBS "$here/probes/$p" -o "$d/p$i.bc" 2>/dev/null & ;;
    auto_test) /usr/bin/clang++-18 $C -std=gnu++14 auto_test/basic.cpp -o "$d/p$i.bc" 2>/dev/null & ;;
    *.cpp) /usr/bin/clang++-18 $C -std=gnu++14 "$here/probes/$p" -o "$d/p$i.bc" 2>/dev/null & ;;
  esac
  opt+=($!); i=$((i+1))
done
for p in "${pids[@]}"; do wait $p; done
for p in "${opt[@]}"; do wait $p || true; done
/usr/bin/llvm-link-18 "$d"/*.bc -o "$out"
