"""What each check runs: harness, number of cases, and what it must observe."""
WRAP = ["-Wl,--wrap=fread,--wrap=fwrite,--wrap=fclose"]

# Command-line tools of /repo that checks run as processes.
TOOLS = {
    "quick_dump": {"flavour": "sys"},
    "quick_assemble": {}, "quick_disassemble": {}, "disassemble_more": {},
    "dumb_disassemble": {}, "print_opcode_map": {}, "interactive_parse": {},
}

ROM = dict(exe="rom", src=["rom.cc"], flavour="sys", ld=WRAP)

PROPS = {
    "C01": dict(ROM, quick=768, thorough=768, exhaustive=True,
                rule="every 24-bit address under each of the three mappings, against the wiring of the mapping; a case is one bank of one mapping",
                need=["refused", "translated"]),
    "C02": dict(ROM, quick=160000, thorough=4000000,
                rule="an image (17 sizes, 3 mappings), an address near a bank, image or region boundary, and a length; distinct = different (image, address, length)",
                need=["reads_ok", "reads_refused", "wrapping_reads_ok", "wrapping_reads_refused", "values_ok", "values_refused"]),
    "C03": dict(ROM, quick=12000, thorough=200000,
                rule="a file of generated size, header and checksum places written to disk and loaded, sometimes with a failing read; distinct = different parameters",
                need=["loads_refused", "loads_LoROM", "loads_HiROM", "loads_ExHiROM", "loads_headered", "read_faults", "reads_ok"]),
    "C04": dict(ROM, quick=6000, thorough=150000,
                rule="a history of writes to a patched image, then the created file compared byte for byte with a model; distinct = different histories",
                need=["writes_ok", "writes_refused", "wrapping_writes", "create_faults", "files_compared"]),
    "C05": dict(ROM, quick=160000, thorough=3000000,
                rule="a write compared with an image: equal, differing from a chosen position, or unreadable; distinct = different (image, address, length, difference)",
                need=["matching", "differing", "unreadable"]),
    "C06": dict(exe="ranges", src=["ranges.cc"], flavour="sys", quick=300000, thorough=8000000,
                rule="a history of claims, aimed at existing chunk edges, bank edges and gaps; after every claim the return value, the chunks and the membership of every boundary byte are compared with a list of intervals; distinct = different histories in which claims merged",
                need=["conflicts", "free_claims", "wrapping_claims", "bridging_claims", "inside_probes", "outside_probes", "copies_checked"]),
    "C07": dict(exe="ranges", src=["ranges.cc"], flavour="sys", quick=150000, thorough=4000000,
                rule="a history of insertions of multi-chunk ranges, with every boundary byte looked up after each; distinct = different histories with both accepted and refused insertions",
                need=["inserts", "refused_inserts", "refused_multi_chunk", "owned_probes", "free_probes"]),
    "C08": dict(exe="names", src=["names.cc"], flavour="sys", quick=4000, thorough=60000,
                rule="every value printed; every case pattern of every name; every string one edit away from a name; every string of three letters or dots; random text; each asked of all three parsers. distinct = different strings (base strings of exhaustive blocks)",
                need=["recognised", "rejected"], need_seen={"mnemonic_names": 93, "directive_names": 12, "suffix_names": 2}),
    "C09": dict(exe="values", src=["values.cc"], flavour="sys", quick=3000, thorough=200000,
                rule="every address of every bank against one anchor, every 16-bit offset, and samples at bank, sign and 32-bit boundaries; distinct = different banks or (address, address, offset)",
                need=["same_bank", "other_bank", "wrapped_additions", "plain_additions"]),
    "C10": dict(exe="values", src=["values.cc"], flavour="sys", quick=1000, thorough=60000,
                rule="all 7 types over every 24-bit value (plain, negative, with high bits), all 49 pairs, and 32-bit samples; distinct = different blocks or values",
                need_seen={"pairs": 49}),
    "C11": dict(exe="values", src=["values.cc"], flavour="sys", quick=60000, thorough=2000000,
                rule="a history of attachments to an error, carried through results and compared; distinct = different histories",
                need=["attachments", "replaced_parts", "errors_carried", "values_carried"], need_seen={"shapes": 5}),
    "C12": dict(exe="dump", src=["dump.cc"], flavour="sys", tools=["quick_dump"], quick=7000, thorough=150000,
                rule="one run of the dump tool on a ROM file (10 files, 3 mappings, with and without copier header) with an address near an edge, a count, stride and width, or malformed arguments; distinct = different command lines",
                need=["readable", "unreadable", "wrapping", "malformed"]),
    "C13": dict(exe="insn", src=["insn.cc"], quick=1500, thorough=20000,
                rule="every opcode byte under all 256 width states with edge and random operands, cut short and followed by other bytes, decoded and encoded at edge addresses; every mnemonic with every addressing mode and suffix; branch distances around their limits; distinct = different byte strings or branches",
                need=["decoded", "encoded", "refused_unknown_width", "cut_short", "encodable", "unencodable", "width_states", "suffix_states", "branches_encoded", "branches_refused"],
                need_seen={"opcodes": 256, "mnemonics": 93}),
    "C14": dict(exe="insn", src=["insn.cc"], quick=40000, thorough=1000000,
                rule="a decoded or pseudo instruction with edge or random operands, optional suffix, label and return convention, printed, respaced, parsed and assembled; distinct = different (text, width state)",
                need=["round_trips", "pseudo", "suffixed", "conventions", "directives", "named_operands"], need_seen={"opcodes": 256, "directive_kinds": 12, "named_opcodes": 80}),
    "C15": dict(exe="lang", src=["lang.cc"], quick=20000, thorough=600000,
                rule="an expression grown from the grammar, the same broken by an edit, or a soup of tokens, with bound and unbound names; every operator on operands at the edges of 32 bits; nesting and chains of up to 60000 operators; distinct = different texts of five tokens or more",
                need=["evaluated", "malformed", "without_value", "with_names", "edges", "deep"]),
    "C19": dict(exe="flow", src=["flow.cc"], quick=24000, thorough=600000, rule="every nest of up to four pushes, pulls and flag changes from every entry mode; random and mutated flow with a width-dependent instruction put where execution has one width or both; concrete machine states are followed through each and compared with what was assembled; distinct = different accepted programs", need=["accepted", "nests", "stacked_flow", "random_flow", "mutated_flow", "ambiguous_points", "widths_checked", "states_followed", "refused_forced", "branches_to_values"]),
    "C21": dict(exe="flow", src=["flow.cc"], quick=24000, thorough=600000, rule="as C19, each program assembled under a CPU limit; those that concretely meet two widths, run off the end or into data, or hold unreachable code must be refused; distinct = different programs", need=["accepted", "refused_conflicting widths", "refused_runs off the end", "refused_runs into data", "refused_unreachable", "traps", "stacked_flow", "random_flow", "mutated_flow", "big"]),
    "C30": dict(exe="absx", src=["absx.cc"], quick=1500, thorough=60000,
                rule="a walk of up to 33 instructions, forked and joined, from any starting flags: 24 or so concrete machines that fit the start are taken along and every claim of the analysed state is compared with every machine after every step; distinct = different walks",
                need=["steps", "flag_claims", "claims_A", "claims_X", "claims_Y", "claims_DBR", "original_claims", "stack_bytes", "stack_flags", "stack_originals", "stack_varsize", "joins", "branches", "named_operands", "asks_again"], need_seen={"opcodes": 240}),
    "C20": dict(exe="lang", src=["lang.cc"], quick=4000, thorough=100000,
                rule="every word of up to five mode letters, every case pattern and edit of a mode name; every pair and triple of flag states merged; execution states reached by instruction sequences merged; distinct = different flag states or histories",
                need=["known_names", "unknown_names", "merges", "triples", "state_merges"], need_seen={"modes": 11}),
    "C16": dict(exe="asm", src=["asm.cc"], quick=4000, thorough=100000, rule="a well-formed program of one to three files grown by a generator that models flow, widths, scopes and placement, assembled and compared byte by byte with a reference encoding; the same with one statement made wrong; the same into a sink that fails at a chosen write; distinct = different programs assembled", need=["assembled", "bytes_compared", "refused_suffix", "refused_operand", "refused_undefined", "refused_far", "reach_edges", "sink_failures", "statements_across_a_bank_end", "branches", "names_used", "multi_file", "single_file", "scopes", "equs", "conventions"]),
    "C17": dict(exe="asm", src=["asm.cc"], quick=4000, thorough=100000, rule="a well-formed program, its footprint probed at every statement edge and at random addresses, or the same with a region moved onto another so that it collides; distinct = different programs", need=["assembled", "inside_probes", "outside_probes", "collisions_module", "collisions_modules", "statements_across_a_bank_end", "multi_file"]),
    "C18": dict(exe="asm", src=["asm.cc"], quick=4000, thorough=100000, rule="a well-formed program of several files added in every or many orders, or the same with a name made undefined, duplicated, cyclic, private or out of scope; distinct = different programs permuted", need=["orders", "permuted", "multi_file", "refused_cycle", "refused_duplicate", "refused_unresolved"]),
    "C24": dict(exe="asm", src=["asm.cc"], quick=4000, thorough=100000, rule="a well-formed program with literal jumps, remote declarations and return conventions, every reported target, state, convention and name compared with a model; distinct = different programs", need=["assembled", "literal_jumps", "remotes", "targets_inside", "targets_outside", "bits_unknown", "bits_known", "conventions_checked", "names_checked"]),
    "C26": dict(exe="diag", src=["diag.cc"], quick=24000, thorough=1500000, rule="a well-formed program with one fault planted, and the error of assembling it; distinct = different texts that were refused at the right place", need=["placed", "on_disk", "several_places"], need_seen={"faults": 26, "syntax": 90}),
    "C25": dict(exe="hostile", src=["hostile.cc"], tools=["quick_dump", "quick_assemble", "quick_disassemble", "disassemble_more", "dumb_disassemble", "interactive_parse", "print_opcode_map"], plain=True, quick=24000, thorough=300000,
                rule="a damaged or made-up source, line, memory, ROM file or command line; distinct = different inputs", need=["soups", "damaged", "statements", "memories", "roms_loaded", "roms_refused", "huge", "tools_done", "tools_refused", "memcheck_runs"], need_seen={"huge": 30}),
    "C27": dict(exe="det", src=["det.cc"], quick=16000, thorough=500000,
                rule="programs (well-formed, damaged, made up) and disassembly jobs done again in other container orders, after other work, and in other processes; distinct = different outcomes", need=["assembled", "refused", "disassembled", "repeats", "repeats_later", "processes", "names_shared"]),
    "C28": dict(exe="cli", src=["cli.cc"], tools=["quick_assemble", "quick_disassemble", "disassemble_more", "dumb_disassemble"], quick=4000, thorough=80000,
                rule="the command-line tools run on a generated ROM and program: assembled over it, verified against it, altered by a byte, disassembled and assembled again; distinct = different programs or listings",
                need=["created", "in_place", "verified", "differences_found", "differences_ignored", "refused", "unwritable", "reproduced_quick_disassemble", "reproduced_disassemble_more", "declared_calls", "dumb_done", "targets_printed", "trees", "calls_listed"], need_seen={"dumb_ends": 3}),
    "C29": dict(exe="inspect", src=["inspect.cc"], tools=["print_opcode_map", "interactive_parse"], quick=5000, thorough=100000,
                rule="the lines of a generated program, between damaged ones, given to interactive_parse; its answers assembled and given to it again; the opcode map compared with the 65816's; distinct = different readings",
                need=["programs", "bytes_compared", "stray_read", "stray_refused", "labels"], need_seen={"opcodes": 256}),
    "C22": dict(exe="dis", src=["dis.cc"], quick=20000, thorough=600000, rule="the bytes of a generated program, of wild flow or of random opcodes, sometimes altered, disassembled from its entries as the tools do, and executed concretely from the same entries; distinct = different memories and entries", need=["disassemblies", "refused", "must_succeed", "structured", "flow", "random_bytes", "mutated", "far_targets", "instructions_executed", "suffixes", "exact"], need_seen={"opcodes": 256}),
    "C23": dict(exe="dis", src=["dis.cc"], quick=20000, thorough=600000, rule="as C22; the listing printed as the tools print it, assembled, and compared with the memory; distinct = different listings that assembled", need=["reassembled", "bytes_compared", "folded", "with_per", "with_gaps", "structured", "flow", "random_bytes"]),
}

NOTES = {
    "C01": (f"exhaustive run of the real translation under sanitizers, monitored against a model of the cartridge wiring",
            "Every address and mapping is executed, so a wrong translation anywhere is seen; trusts the wiring model in h/rommodel.h."),
    "C02": ("sanitized execution of ROM reads with an oracle for every byte and refusal",
            "Sampled with boundary bias; reads beyond a vector are caught by ASan even when the values agree."),
    "C03": ("sanitized loading of generated files with injected read faults and a descriptor-leak monitor",
            "Sampled over sizes, header and checksum placements up to 16 MiB; faults cover every read call."),
    "C04": ("histories of patches against a byte-array model, output files compared, write and close faults injected",
            "Sampled histories; the file system itself is trusted."),
    "C05": ("sanitized execution of the identity check with an oracle for the first difference and its address",
            "Sampled with boundary bias."),
    "C06": ("online monitor comparing every claim with an interval-list model, under sanitizers",
            "Sampled histories of up to 60 claims, biased to touching, nesting, bridging and wrapping."),
    "C07": ("online monitor comparing every insertion and lookup with an ownership model, under sanitizers",
            "Sampled histories of up to 14 insertions of up to 7 pieces."),
    "C08": ("exhaustive and edit-distance runs of the name conversions against an independent vocabulary",
            "All names, case patterns and one-edit neighbours are executed; longer text is sampled."),
    "C09": ("exhaustive-per-bank and boundary-sampled runs of address arithmetic under UBSan with an integer oracle",
            "All pairs with one anchor per bank are executed; other pairs are sampled."),
    "C10": ("exhaustive 24-bit runs of coercion and all type pairs under UBSan with a modular-arithmetic oracle",
            "Values beyond 24 bits are sampled."),
    "C11": ("histories of position attachments and result moves monitored against a text model, under sanitizers",
            "Sampled histories."),
    "C12": ("the sanitized tool run as a process, its output parsed and compared with the ROM file",
            "Sampled command lines over nine ROM files; exit status, text and sanitizer reports are judged."),
    "C13": ("exhaustive opcode and width-state runs of the decoder and encoder under sanitizers, monitored against an independent 65816 table",
            "Opcodes, width states and mnemonic/mode pairs are exhaustive; multi-byte operands are sampled; trusts the table in h/cpu.h."),
    "C14": ("print/parse/assemble round trips under sanitizers with an oracle for text and bytes",
            "All opcodes and widths are executed; operands, spacing and suffix combinations are sampled."),
    "C15": ("expressions run under UBSan and ASan against a reference parser and two's-complement evaluator",
            "Generated expressions; operator edges are exhaustive over thirteen operand values."),
    "C20": ("exhaustive runs of mode names and flag-state merges, sampled merges of reached states, with a bitwise oracle",
            "Flag states, their pairs and triples are exhaustive; register and stack parts are sampled."),
    "C16": ("generated programs assembled under sanitizers, every write recorded and compared with a reference assembler's image",
            "Sampled programs of up to three files; the generator's reach over statements, operands and faults is counted in the evidence."),
    "C17": ("recorded writes of generated and colliding programs checked for exactly-once and against the reported footprint",
            "Sampled programs; collisions are planted at every kind of edge."),
    "C18": ("generated multi-file programs assembled in permuted orders and compared with a reference name resolver; name faults planted",
            "Sampled programs; up to all six orders of three files."),
    "C19": ("accepted programs executed by a concrete 65816 flag-and-stack monitor, which must never see a width other than the one assembled",
            "Small nests are exhaustive; other flow is sampled; exploration of one program is cut at 6000 states."),
    "C30": ("concrete 65816 machines taken through the same instructions as the analysed state, each of its claims monitored against each machine",
            "Sampled walks; memory holds anything, and stores are taken not to reach the stack."),
    "C21": ("wild programs assembled under sanitizers and a CPU limit; the concrete monitor names those that must be refused",
            "Sampled; non-termination is judged by a CPU limit of 20 s for a program that takes milliseconds."),
    "C24": ("reported targets, states, conventions and names of generated programs monitored against a model",
            "Sampled programs."),
    "C26": ("one fault planted in a generated program, the position in the real error compared with where it was planted",
            "Sampled programs, places and faults; a fault that concerns two statements may be reported at either."),
    "C25": ("hostile sources, lines, memories, ROM files and command lines run under AddressSanitizer and UndefinedBehaviorSanitizer with a CPU limit, and a part again under valgrind's memcheck",
            "Sampled; non-termination is judged by a CPU limit of 20 s for work of milliseconds; nesting and repetition up to 30000."),
    "C27": ("recorded outcomes compared across repetitions, container orders, and processes with differently filled heaps",
            "Sampled programs and memories; container orders are those of a salted hash table standing in for abseil's."),
    "C28": ("the sanitized tools run as processes, the files they make and their listings compared with a model of the ROM",
            "Sampled ROMs and programs; listings with overlapping instructions, flow across a bank end, PER or unknown states may be refused."),
    "C29": ("the sanitized tools run as processes; what they print compared with the 65816 and, assembled, with a reference assembler's bytes",
            "Sampled programs; the map is compared completely, but for its operands' values, which mean nothing."),
    "C22": ("listings monitored against a concrete 65816 flag-and-stack execution of the same bytes, under sanitizers",
            "Sampled memories; exploration of one memory is cut at 6000 states."),
    "C23": ("listings assembled again, every write recorded and compared with the memory disassembled",
            "Sampled memories; listings with overlapping instructions, flow across a bank end or states the language cannot express may be refused."),
}
NOT_APPLICABLE = {}
