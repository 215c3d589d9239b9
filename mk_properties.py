#!/usr/bin/env python3
"""Source of properties.jsonl (run after editing: python3 mk_properties.py)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": [observe]}})


p("C01", "ELF relocations store the exact ABI value or are refused",
  "For every supported x86-64, AArch64 and RISC-V ELF relocation and every combination of symbol address, addend, place address, GOT/TLS address and existing instruction bytes, applying the relocation either stores exactly the value the processor ABI prescribes into exactly the bits of the relocated field, or reports an error and leaves the bytes untouched. A value the field can represent is never refused, a value it cannot represent (out of range, misaligned, wrong instruction) is never silently truncated, and no byte outside the field changes.",
  ["inputs"], "all 64-bit operand values, all addends, all instruction words, every supported relocation type of the three machines",
  "The operand space is 2^64 per operand and every relocation type has its own boundary; the tests sample a few in-range values and one or two overflows per type.",
  ["src/ld/ld_elf_reloc.c", "src/ld/ld_elf_reloc.h"],
  [("relocation application", "src/ld/ld_elf_reloc.c: ld_elf_relocation_apply and the per-machine appliers"),
   ("range checks", "src/ld/ld_elf_reloc.c: ld_elf_reloc_integer_*"),
   ("field writers", "src/ld/ld_elf_reloc.c: ld_elf_reloc_write_*, ld_elf_reloc_riscv_write_*")],
  "bytes at the relocated place and the returned status")

p("C02", "Linker code rewrites keep the meaning of the instructions",
  "When the ELF linker rewrites instructions instead of just patching a field (x86-64 TLS general-dynamic, local-dynamic, descriptor and initial-exec sequences, GOT-load relaxation, RISC-V ULEB128 pairs and alignment padding), the rewritten bytes compute exactly the address the original sequence would have produced. Sequences that do not match the required instruction pattern or whose displacement does not fit are refused, and bytes outside the sequence never change.",
  ["inputs"], "all instruction bytes around the site, all addresses and addends, all site offsets",
  "Only a few hand-written sequences are tested; register numbers, prefix bytes, offsets near the section edges and displacement boundaries are not.",
  ["src/ld/ld_elf_reloc.c", "src/ld/ld_elf_riscv_uleb.c"],
  [("x86-64 TLS and GOT rewrites", "src/ld/ld_elf_reloc.c: ld_elf_relocation_apply_x86_*"),
   ("ULEB128 pairs", "src/ld/ld_elf_riscv_uleb.c and ld_elf_relocation_apply_riscv_uleb_pair"),
   ("alignment padding", "src/ld/ld_elf_reloc.c: RISC-V ALIGN")],
  "rewritten bytes and the returned status")

p("C03", "RISC-V machine code encodes exactly the requested instruction",
  "For every instruction the RISC-V back end hands to its assembler, with every register and immediate operand, the emitted bytes decode (by the ISA manual) to that same operation on those same registers with that same immediate value. An operand that the instruction cannot represent is never silently truncated into a different instruction.",
  ["inputs", "programs"], "all register numbers and all immediates of each supported instruction form",
  "Encoding tests compare a handful of fixed instructions with expected bytes; boundary immediates and compressed-form selection depend on the operand values.",
  ["src/binary/encoding/riscv64/opcode.c", "src/binary/encoding/riscv64/opcode.h"],
  [("encoder", "src/binary/encoding/riscv64/opcode.c: riscv64_asm_inst_encoding")],
  "emitted instruction bytes")

p("C04", "AArch64 machine code encodes exactly the requested instruction",
  "For every instruction the AArch64 back end hands to its assembler, with every register and immediate operand, the emitted 32-bit words decode (by the architecture manual) to that same operation, width and addressing mode on those same registers with that same immediate value. An operand that the instruction cannot represent is never silently truncated into a different instruction.",
  ["inputs", "programs"], "all register numbers and all immediates of each supported instruction form",
  "Encoding tests compare a handful of fixed instructions with expected bytes; boundary immediates, register widths and addressing-mode selection depend on the operand values.",
  ["src/binary/encoding/arm64/opcode.c", "src/binary/encoding/arm64/opcode.h"],
  [("encoder", "src/binary/encoding/arm64/opcode.c: arm64_asm_inst_encoding")],
  "emitted instruction words")

p("C05", "x86-64 machine code encodes exactly the requested instruction",
  "For every instruction form the x86-64 back end emits, with every register, base, index, scale, displacement and immediate, the emitted bytes decode (by the architecture manual) to the same operation, operand size, registers, memory address and immediate.",
  ["inputs", "programs"], "all register numbers, displacement and immediate values of the emitted forms",
  "REX, ModRM, SIB and displacement-size selection interact; tests check a fixed list of instructions.",
  ["src/binary/encoding/amd64/opcode.c", "src/binary/encoding/amd64/opcode.h"],
  [("encoder", "src/binary/encoding/amd64/opcode.c: amd64_asm_inst_encoding"),
   ("operand encoding", "src/binary/encoding/amd64/opcode.c: ModRM, SIB and REX builders")],
  "emitted instruction bytes")

p("C06", "Vectors behave as sequences with value preservation and bounds checks",
  "Every vector operation (create, push, append, concat, slice, copy, indexed read and write) yields exactly the sequence of elements the language defines, for every length, capacity and element size. Growing never loses or duplicates elements, an index or slice bound outside the vector raises an error and touches nothing, and no byte outside the vector's storage is read or written.",
  ["inputs", "histories"], "all lengths, capacities, indices and element sizes, all operation arguments",
  "Growth and boundary behaviour depend on the length/capacity/element-size combination; tests use short fixed vectors.",
  ["runtime/nutils/vec.c", "runtime/nutils/vec.h"],
  [("vector operations", "runtime/nutils/vec.c: rt_vec_*"), ("growth", "runtime/nutils/vec.c: rti_vec_grow")],
  "vector contents, length, capacity and raised errors")

p("C07", "Maps and sets behave as finite maps and sets under every history",
  "After any sequence of insertions, overwrites, deletions and lookups, a map returns for each key exactly the value last assigned to it and reports absent or deleted keys as absent, and a set contains exactly the elements added and not deleted since. The reported length equals the number of distinct present keys, and collisions, deletions and growth never lose, resurrect or duplicate an entry.",
  ["histories", "inputs"], "all operation sequences, key values and hash collisions",
  "Lost or resurrected entries need a specific collision/deletion/growth pattern that ordinary tests do not hit.",
  ["runtime/nutils/map.c", "runtime/nutils/set.c", "runtime/nutils/hash.h"],
  [("open addressing probe", "runtime/nutils/hash.h: find_hash_slot"), ("map operations", "runtime/nutils/map.c"),
   ("set operations", "runtime/nutils/set.c")],
  "lookup results, contained keys and length")

p("C08", "Strings compare and concatenate byte-exactly",
  "Concatenation yields the bytes of both operands in order and leaves the operands unchanged; comparison operators implement the lexicographic byte order and equality on the full contents, including embedded zero bytes, for strings of every length. Creating a string from bytes preserves each byte and the length.",
  ["inputs"], "all byte contents and lengths", "Tests compare short printable strings.",
  ["runtime/nutils/string.c", "runtime/nutils/string.h"],
  [("string operations", "runtime/nutils/string.c")], "returned strings and comparison results")

p("C09", "Size classes, page bitmaps and free-page summaries are exact",
  "The size class chosen for an allocation is large enough for the request and its span holds at least one object. Marking a run of pages as used or free changes exactly those pages of the bitmap, and the free-page summary of a chunk and of a group of summaries states exactly the leading, trailing and longest free run.",
  ["histories", "inputs"], "all request sizes, all page bitmaps and summary values",
  "Errors need particular fragmentation patterns across chunk boundaries or sizes at class boundaries.",
  ["runtime/allocator.c", "runtime/memory.h", "runtime/sizeclass.h", "utils/bitmap.h"],
  [("size classes", "runtime/sizeclass.h, runtime/allocator.c: calc_sizeclass"),
   ("page bitmap", "utils/bitmap.h: bitmap_batch_set, bitmap_batch_clear"), ("summaries", "runtime/allocator.c: chunk_summarize, merge_summarize")],
  "chosen size class, bitmap and summaries")

p("C10", "Heap metadata lets the collector find every pointer and only live objects",
  "For an object allocated with a given element layout, the heap bitmap marks exactly the words that hold pointers as the collector reads them, for every object size and position in an arena. Mark and allocation bits, span lookup and object index computations map every interior address to the one object that contains it.",
  ["inputs", "histories"], "all object sizes, layouts and addresses within an arena",
  "A wrong bit only matters when a collection happens while that word holds the last reference.",
  ["runtime/allocator.c", "runtime/memory.h", "runtime/gcbits.c", "runtime/gcbits.h", "runtime/fixalloc.c", "runtime/collector.c"],
  [("heap bitmap", "runtime/allocator.c: heap_arena_bits_*"), ("address to arena/bit index", "runtime/memory.h"),
   ("mark bit storage", "runtime/gcbits.c")],
  "bitmap contents and computed indices")

p("C11", "Channels deliver every value exactly once and in order",
  "A buffered channel of capacity n accepts sends until it holds n undelivered values, receives return the values in the order they were sent, and each value is delivered exactly once; the buffer never overwrites an undelivered value or returns a value that was not sent. Waiting senders and receivers are served in arrival order, and removing a waiter from a queue removes exactly that waiter.",
  ["histories", "schedules"], "all interleavings of sends and receives on the buffer and waiter queues, all capacities and element sizes",
  "Wrap-around and removal from the middle of a wait queue depend on the history.",
  ["runtime/rt_chan.c", "runtime/rt_chan.h", "runtime/rt_linked.h"],
  [("ring buffer", "runtime/rt_chan.c: buf_*"), ("wait queues", "runtime/rt_chan.c: waitq_*")],
  "received values, blocking decisions and queue order")

p("C12", "Coroutine queues and locks never lose, duplicate or reorder a waiter",
  "The runtime's coroutine lists behave as FIFO queues under every sequence of push, pop and removal: every queued coroutine comes out exactly once, in order. A mutex is held by at most one coroutine, and releasing it hands it to exactly one waiter if any is queued.",
  ["histories", "schedules"], "all operation sequences on the queues and lock states",
  "Corruption needs a specific removal or block-boundary history.",
  ["runtime/rt_linked.h", "runtime/rt_mutex.c", "runtime/rt_mutex.h", "runtime/linkco.h"],
  [("linked coroutine queues", "runtime/linkco.h, runtime/rt_linked.h"), ("mutex", "runtime/rt_mutex.c")],
  "queue contents and lock ownership")

p("C13", "COFF relocations store the exact PE/COFF value or are refused",
  "For every supported AMD64 COFF relocation and every combination of symbol, section and image addresses, the linker stores exactly the value the PE/COFF specification prescribes into exactly the relocated bytes, or reports an error; overflowing values are never truncated.",
  ["inputs"], "all addresses, addends and existing field bytes",
  "Same as for ELF: boundary values per relocation type are not sampled by tests.",
  ["src/ld/ld_coff.c", "src/ld/ld_coff_writer.c", "src/binary/coff/coff_amd64.c"],
  [("COFF relocation application", "src/ld/ld_coff_writer.c")], "relocated bytes and the returned status")

p("C14", "Mach-O relocations store the exact ABI value or are refused",
  "For every supported ARM64 Mach-O relocation and every combination of target address, place address and addend, the linker stores exactly the value the ABI prescribes into exactly the relocated field, or reports an error; values that do not fit are never truncated.",
  ["inputs"], "all addresses, addends and instruction words", "Boundary values per relocation kind are not sampled by tests.",
  ["src/ld/ld_macho.c"], [("Mach-O relocation application", "src/ld/ld_macho.c")], "relocated bytes and the returned status")

p("C15", "Malformed linker input is rejected without out-of-bounds access",
  "For every byte sequence offered as (part of) an object file, archive, import library, compressed section, note or import stub, the linker's parsers read only inside the supplied buffer, terminate, and either report an error or deliver values that lie inside the buffer.",
  ["inputs"], "all byte contents of the parsed structures", "Hardening tests cover a list of known corruptions.",
  ["src/ld/ld_elf_archive.c", "src/ld/ld_elf_property.c", "src/ld/ld_elf_zlib.c", "src/ld/ld_elf_riscv_uleb.c", "src/ld/ld_coff_reader.c", "src/ld/ld_input.c"],
  [("parsers", "src/ld: archive, property note, zlib, ULEB128 and COFF readers")], "accesses and delivered values")

p("C16", "Type sizes, field offsets and pointer maps agree with each other",
  "For every type the compiler lays out, the size is the aligned sum of its fields, fields do not overlap and are aligned, and the pointer map handed to the garbage collector marks exactly the words that contain references.",
  ["inputs", "programs"], "all field type sequences", "Layout errors need particular field orders and alignments.",
  ["utils/type.c", "utils/type.h"], [("layout and reflection", "utils/type.c")], "sizes, offsets and pointer maps")

p("C17", "Numeric and character literals denote their exact value",
  "Every integer literal in any supported base, with any digit separators the language allows, is accepted exactly when it is well formed and fits the target type, and denotes exactly its mathematical value; escape sequences in character and string literals denote exactly the specified bytes.",
  ["inputs", "programs"], "all literal texts", "Boundary values and separator placements are sampled sparsely.",
  ["src/syntax/scanner.c"], [("number and escape scanning", "src/syntax/scanner.c")], "token text and literal value")

p("C18", "Runtime conversions preserve values and reject type mismatches",
  "Converting between numeric types, boxing a value as any/union/interface and asserting it back yields the language-defined value for every input; an assertion to a type the value does not have raises an error instead of reinterpreting the bytes.",
  ["inputs"], "all numeric values and all type tags", "Only a few values per conversion are tested.",
  ["runtime/nutils/nutils.c"], [("casts and assertions", "runtime/nutils/nutils.c")], "converted values and raised errors")

p("C19", "Scheduler makes progress and never runs a coroutine twice at once",
  "Every runnable coroutine is eventually executed by exactly one processor at a time, and a sleeping or waiting coroutine resumes when its event occurs, under every thread interleaving.",
  ["schedules"], "all interleavings of the processor threads, the collector and I/O events", "Interleavings cannot be enumerated by running the program.",
  ["runtime/processor.c", "runtime/rt_mutex.c", "runtime/collector.c"], [("scheduler", "runtime/processor.c")], "coroutine states")

p("C20", "Well-typed programs do not go wrong",
  "A program accepted by the type checker never misinterprets a value's type at run time except through explicitly unsafe operations, and compiled code computes what the source program means on every target.",
  ["programs"], "all source programs", "Feature tests sample the language.",
  ["src/semantic/infer.c", "src/linear.c", "src/ssa.c", "src/lower/amd64.c"], [("type inference and lowering", "src/semantic, src/linear.c, src/lower")], "program output")

if __name__ == "__main__":
    d = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(d, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
