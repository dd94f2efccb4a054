import os
"""Which harness decides which property, and what it has to be built with.

sources: files of /repo/mpact/sim (globs) compiled into the check
shim:    needs the absl/log stand-in and std::string_view aliases (shim/)
proto:   needs the generated component_data.pb
"""
GEN = ["generic/*.cc"]
TARGETS = {
    "C01": dict(harness="c01_data_buffer.cc", sources=["generic/data_buffer.cc"]),
    "C02": dict(harness="c02_delay_line.cc", sources=["generic/data_buffer.cc"]),
}
TARGETS.update({
    "C03": dict(harness="c03_operands.cc", sources=["generic/data_buffer.cc"]),
    "C04": dict(harness="c04_program_error.cc", sources=["generic/program_error.cc"]),
    "C05": dict(harness="c05_status_register.cc", sources=["generic/data_buffer.cc", "generic/state_item_base.cc"]),
})
TARGETS.update({
    "C06": dict(harness="c06_extract.cc", sources=["decoder/extract.cc"]),
    "C07": dict(harness="c07_format_name.cc", sources=["decoder/format_name.cc"]),
    "C08": dict(harness="c08_resource.cc", sources=["decoder/resource.cc", "decoder/format_name.cc"]),
    "C09": dict(harness="c09_template.cc", sources=["decoder/template_expression.cc"]),
})
TARGETS.update({
    "C10": dict(harness="c10_types.cc", sources=[]),
    "C11": dict(harness="c11_socket_stream.cc", sources=[],
                libs=["-Wl,--wrap=" + f for f in ("read", "write", "close", "send", "recv")]),
})
TARGETS.update({
    "C12": dict(harness="c12_resources.cc", shim=True,
                sources=["generic/resource_bitset.cc", "generic/simple_resource.cc"]),
})
TARGETS.update({
    "C13": dict(harness="c13_complex_resource.cc", shim=True, proto=True, sources=GEN),
    "C14": dict(harness="c14_registers.cc", shim=True, proto=True, sources=GEN),
    "C15": dict(harness="c15_fifos.cc", shim=True, proto=True, sources=GEN),
    "C16": dict(harness="c16_instruction.cc", shim=True, proto=True, sources=GEN),
    "C17": dict(harness="c17_decode_cache.cc", shim=True, proto=True, sources=GEN),
})
TARGETS.update({
    "C18": dict(harness="c18_action_points.cc", shim=True, proto=True, sources=GEN),
})
TARGETS.update({
    "C19": dict(harness="c19_components.cc", shim=True, proto=True, sources=GEN),
})
MEM = GEN + ["util/memory/*.cc"]
TARGETS.update({
    "C20": dict(harness="c20_flat_memory.cc", shim=True, proto=True, sources=MEM),
})
TARGETS.update({
    "C21": dict(harness="c21_tagged_memory.cc", shim=True, proto=True, sources=MEM),
    "C22": dict(harness="c22_atomic_memory.cc", shim=True, proto=True, sources=MEM),
})
TARGETS.update({
    "C23": dict(harness="c23_router.cc", shim=True, proto=True, sources=MEM),
})
TARGETS.update({
    "C24": dict(harness="c24_watcher.cc", shim=True, proto=True, sources=MEM),
})
TARGETS.update({
    "C25": dict(harness="c25_cache.cc", shim=True, proto=True, sources=MEM),
})
TARGETS.update({
    "C26": dict(harness="c26_use_profiler.cc", shim=True, proto=True, sources=MEM),
})
BINGEN = ["decoder/" + f + ".cc" for f in (
    "format", "overlay", "encoding_group", "instruction_encoding",
    "instruction_group", "bin_encoding_info", "bin_decoder",
    "decoder_error_listener", "format_name", "extract", "bin_format_visitor")]
BING4 = [("decoder/BinFormat.g4", "mpact::sim::decoder::bin_format::generated")]
TARGETS.update({
    "C27": dict(harness=["c27_bin_decoder.cc", "gen.cc"], shim=True, g4=BING4,
                sources=BINGEN, prelude="gen_prelude.h"),
})
TARGETS.update({
    "C28": dict(harness=["c28_accessors.cc", "gen.cc"], shim=True, g4=BING4,
                sources=BINGEN, prelude="gen_prelude28.h",
                gen_inc=["-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness")]),
})
TARGETS.update({
    "C29": dict(harness=["c29_run_control.cc", "sched/vsched.cc"], shim=True,
                proto=True, inc=["harness/sched"], src_san="thread",
                flags=["-include", "vmutex.h"],
                sources=["util/renode/renode_cli_top.cc",
                         "util/renode/cli_forwarder.cc"]),
})
TARGETS.update({
    "C30": dict(harness="c30_renode_agent.cc", shim=True, proto=True,
                sources=MEM + ["util/renode/renode_mpact.cc",
                               "util/renode/renode_memory_access.cc"]),
})
TARGETS.update({
    "C31": dict(harness="c31_elf_loader.cc", shim=True, proto=True,
                sources=GEN + ["util/program_loader/*.cc"]),
    "C32": dict(harness="c32_profiler.cc", shim=True, proto=True,
                sources=MEM + ["util/program_loader/*.cc",
                               "util/other/instruction_profiler.cc"]),
})
TARGETS.update({
    "C33": dict(harness="c33_gdb_server.cc", shim=True, proto=True,
                flags=["-D_GLIBCXX_ASSERTIONS"],
                sources=GEN + ["util/gdbserver/*.cc"],
                libs=["-Wl,--wrap=" + f for f in (
                    "socket", "setsockopt", "bind", "listen", "accept", "shutdown",
                    "close", "read", "write", "recv", "send", "fcntl")]),
    "C34": dict(harness="c34_assembler.cc", shim=True,
                flags=["-D_GLIBCXX_ASSERTIONS"],
                sources=["util/asm/*.cc"]),
})
