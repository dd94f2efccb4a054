#!/usr/bin/env python3
"""mkseed.py [id...]: (re)generates seeded/<id>/ from tools/seeds.py.

Each spec gives textual edits to files of /repo, the sources its demonstration
links with, and the demonstration program. The patch is made in a scratch copy.
"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = {}


def seed(id, prop, edits, needs, breaks, demo, sources=(), shim=False, extra="", fmt=""):
    SPECS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks,
                     demo=demo, sources=sources, shim=shim, extra=extra, fmt=fmt)


exec(open(os.path.join(ROOT, "tools", "seeds.py")).read())

DEMO = """#!/bin/bash
# Exit 0: the behaviour is right; nonzero: it is broken. Run in the repository.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
ABSL=$(for l in /usr/lib/x86_64-linux-gnu/libabsl_*.so; do echo -n "-l:$(basename $l) "; done)
%s
export D T PWD
N=0
for s in "$D/demo.cc" %s; do N=$((N+1)); echo "$s $T/$N.o"; done | xargs -P 8 -L 1 sh -c \\
  'clang++-18 -std=c++17 -O0 -w -include cstdint %s-I"$PWD" -c "$0" -o "$1"' || exit 2
clang++-18 "$T"/*.o -Wl,--as-needed $ABSL %s-o "$T/demo" || exit 2
timeout 120 "$T/demo"
"""


# For changes of the decoder generator: builds the generator (with a small
# stand-in for ANTLR), runs it on in.bin_fmt and builds demo.cc with the output.
GEN_DEMO = """#!/bin/bash
# Exit 0: the behaviour is right; nonzero: it is broken. Run in the repository.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
ABSL=$(for l in /usr/lib/x86_64-linux-gnu/libabsl_*.so; do echo -n "-l:$(basename $l) "; done)
export D T PWD
python3 "$D/g4.py" mpact/sim/decoder/BinFormat.g4 "$T" mpact::sim::decoder::bin_format::generated || exit 2
N=0
for s in "$D/bgen.cc" "$D/shim/src/absl_bridge.cc" %s; do N=$((N+1)); echo "$s $T/$N.o"; done | xargs -P 8 -L 1 sh -c \\
  'clang++-18 -std=c++17 -O0 -w -include cstdint -I"$D/antlr" -I"$D/shim" -I"$T" -I"$PWD" -c "$0" -o "$1"' || exit 2
clang++-18 "$T"/*.o -Wl,--as-needed $ABSL -lpthread -o "$T/bgen" || exit 2
mkdir "$T/out"
timeout 60 "$T/bgen" "$D/in.bin_fmt" "$T/out" || exit 1
cp "$D/g_enums.h" "$T/out/"
clang++-18 -std=c++17 -O0 -w -include cstdint -include "$D/g_enums.h" -I"$D/genrt" -I"$T/out" \\
  "$D/demo.cc" -Wl,--as-needed $ABSL -o "$T/demo" || exit 1
timeout 60 "$T/demo"
"""
BGEN = """#include "mpact/sim/decoder/bin_format_visitor.h"
int main(int, char** argv) {
  mpact::sim::decoder::bin_format::BinFormatVisitor v;
  return v.Process({argv[1]}, "D", "g", {}, argv[2]).ok() ? 0 : 1;
}
"""
ENUMS = """#ifndef G_ENUMS_H_
#define G_ENUMS_H_
namespace vf {
enum class OpcodeEnum { kNone, kI0, kI1, kI2, kI3, kI4, kI5 };
}
#endif
"""
BINGEN = ("format overlay encoding_group instruction_encoding instruction_group bin_encoding_info "
          "bin_decoder decoder_error_listener format_name extract bin_format_visitor").split()

ARCH = ("action_point_manager_base arch_state breakpoint_manager component complex_resource complex_resource_operand control_register "
        "data_buffer decode_cache fifo fifo_with_notify instruction program_error register "
        "resource_bitset simple_resource state_item_base token_fifo").split()


def make(id):
    s = SPECS[id]
    d = os.path.join(ROOT, "seeded", id)
    w = tempfile.mkdtemp(prefix="mkseed_")
    try:
        subprocess.check_call(["git", "-C", REPO, "worktree", "prune"])
        subprocess.check_call("git -C " + REPO + " archive HEAD | tar x -C " + w, shell=True)
        subprocess.check_call("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm base", shell=True, cwd=w)
        for f, old, new in s["edits"]:
            p = os.path.join(w, "mpact/sim", f)
            t = open(p).read()
            if t.count(old) != 1:
                print(f"{id}: {t.count(old)} matches in {f} of:\n{old}")
                return False
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "diff"], cwd=w, text=True)
    finally:
        shutil.rmtree(w)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.cc"), "w").write(s["demo"].lstrip("\n"))
    if s["fmt"]:
        for x in ("shim", "antlr", "genrt"):
            shutil.rmtree(os.path.join(d, x), ignore_errors=True)
            shutil.copytree(os.path.join(ROOT, x), os.path.join(d, x))
        shutil.copy(os.path.join(ROOT, "tools", "g4.py"), d)
        open(os.path.join(d, "in.bin_fmt"), "w").write(s["fmt"].lstrip("\n"))
        open(os.path.join(d, "bgen.cc"), "w").write(BGEN)
        open(os.path.join(d, "g_enums.h"), "w").write(ENUMS)
        open(os.path.join(d, "demo.sh"), "w").write(
            GEN_DEMO % " ".join(f"mpact/sim/decoder/{x}.cc" for x in BINGEN))
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]),
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        return True
    pre, inc, lib = s["extra"], "", ""
    srcs = " ".join("mpact/sim/" + x for x in s["sources"])
    if s["shim"] == "arch":
        s["shim"] = "proto"
        srcs = " ".join(dict.fromkeys(srcs.split() + ["mpact/sim/generic/%s.cc" % x for x in ARCH]))
    if s["shim"]:
        # The shim (stand-in for absl/log) travels with the demonstration.
        sd = os.path.join(d, "shim")
        shutil.rmtree(sd, ignore_errors=True)
        shutil.copytree(os.path.join(ROOT, "shim"), sd)
        inc = '-I"$D/shim" -I"$T" '
        srcs += ' "$D/shim/src/absl_bridge.cc"'
        if "proto" in s["shim"]:
            pre += 'protoc -I"$PWD" --cpp_out="$T" "$PWD/mpact/sim/proto/component_data.proto" || exit 2'
            srcs += ' "$T/mpact/sim/proto/component_data.pb.cc"'
            lib = "-lprotobuf "
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % (pre, srcs, inc, lib + "-lpthread "))
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]),
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    return True


for i in (sys.argv[1:] or SPECS):
    print(i, "ok" if make(i) else "FAILED")
