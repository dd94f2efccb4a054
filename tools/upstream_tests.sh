#!/bin/bash
# upstream_tests.sh [REPO]: builds and runs, with the shim, those upstream test
# suites that /opt/vp does not build (used to vet fix: commits). Not a check.
R=${1:-/repo}; H=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/upst_XXXXXX); trap 'rm -rf "$W"' EXIT
cd $W; ln -s $R/mpact mpact; mkdir gen pbinc pbinc/src o t; ln -s /usr/include/google pbinc/src/google
protoc -I$R --cpp_out=gen $R/mpact/sim/proto/component_data.proto
export CF="-std=c++17 -O0 -w -include cstdint -I$H/shim -I$R -I$W/gen -I$W/pbinc -isystem /usr/src/googletest"
export ABSL="$(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so | sed 's,.*/lib,-l,;s,\.so,,' | tr '\n' ' ')"
ls $R/mpact/sim/generic/*.cc $R/mpact/sim/util/memory/*.cc $R/mpact/sim/util/other/*.cc $R/mpact/sim/util/program_loader/*.cc $R/mpact/sim/util/gdbserver/*.cc \
   $R/mpact/sim/util/renode/{cli_forwarder,renode_cli_top,renode_memory_access,renode_mpact}.cc $R/mpact/sim/decoder/{extract,format_name,resource,template_expression,opcode}.cc \
   gen/mpact/sim/proto/*.cc $H/shim/src/absl_bridge.cc | xargs -P8 -I{} sh -c 'clang++-18 $CF -c {} -o o/$(echo {} | tr / _).o'
ar rcs libm.a o/*.o
ls $R/mpact/sim/generic/test/*_test.cc $R/mpact/sim/util/memory/test/*_test.cc $R/mpact/sim/util/renode/test/*_test.cc $R/mpact/sim/util/program_loader/test/*_test.cc $R/mpact/sim/util/other/test/*_test.cc $R/mpact/sim/util/gdbserver/test/*_test.cc $R/mpact/sim/decoder/test/{extract,extract_bits,resource,template_expression,opcode,format_name}_test.cc 2>/dev/null | xargs -P8 -I{} sh -c '
n=$(basename {} .cc); clang++-18 $CF {} libm.a $ABSL -lprotobuf -lgmock -lgtest -lgtest_main -lpthread -o t/$n >t/$n.log 2>&1 || { echo "NOBUILD $n"; exit 0; }
timeout 60 ./t/$n > t/$n.out 2>&1; echo "rc=$? $n $(grep -E "^\[  (PASSED|FAILED)" t/$n.out | tr "\n" " ")"' | sort
