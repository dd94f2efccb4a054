#!/bin/bash
# upstream_decoder_tests.sh [REPO]: builds and runs, with the mini-ANTLR
# runtime, the upstream test suites of the generators. Not a check.
R=${1:-/repo}; H=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/updt_XXXXXX); trap 'rm -rf "$W"' EXIT
cd $W; mkdir gen o t
D=$R/mpact/sim/decoder
python3 $H/tools/g4.py $D/BinFormat.g4 gen mpact::sim::decoder::bin_format::generated
python3 $H/tools/g4.py $D/InstructionSet.g4 gen sim::machine_description::instruction_set::generated
python3 $H/tools/g4.py $D/ProtoFormat.g4 gen mpact::sim::decoder::proto_fmt::generated
export CF="-std=c++17 -O0 -w -include cstdint -I$H/antlr -I$H/shim -I$W/gen -I$R -isystem /usr/src/googletest"
export ABSL="$(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so | sed 's,.*/lib,-l,;s,\.so,,' | tr '\n' ' ')"
(for f in format overlay encoding_group instruction_encoding instruction_group bin_encoding_info bin_decoder decoder_error_listener format_name extract bin_format_visitor instruction_set_visitor instruction_set bundle slot instruction opcode resource template_expression; do echo $D/$f.cc; done; echo $H/shim/src/absl_bridge.cc) |
 xargs -P8 -I{} sh -c 'clang++-18 $CF -c {} -o o/$(basename {}).o 2>o/$(basename {}).err || echo FAIL {}'
ar rcs libm.a o/*.o
cd $R
ls $D/test/*_test.cc | grep -v proto | xargs -P8 -I{} sh -c '
n=$(basename {} .cc); export TEST_TMPDIR='$W'/t TEST_UNDECLARED_OUTPUTS_DIR='$W'/t
clang++-18 $CF {} '$W'/libm.a $ABSL -lgmock -lgtest -lgtest_main -lpthread -o '$W'/t/$n >'$W'/t/$n.log 2>&1 || { echo "NOBUILD $n"; exit 0; }
timeout 60 '$W'/t/$n > '$W'/t/$n.out 2>&1; echo "rc=$? $n $(grep -E "^\[  (PASSED|FAILED)" '$W'/t/$n.out | tr "\n" " ")"' | sort
