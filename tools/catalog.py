"""The property list (properties.jsonl is generated from it by mk.py)."""
HOOKS = dict(guard="cfg(kani)", enable="set by cargo kani itself; never set by cargo build or cargo test",
             source_commits=["80e402b hook: smaller instruction cache under cfg(kani)", "10f3288 hook: any sparse memory state under cfg(kani)"])
NOT_APPLICABLE = {}
EX = "src/instructions/execute.rs"
CO = "src/instructions/common.rs"
RG = "src/instructions/register.rs"
DE = "src/decoder.rs"
ST = "the tests run a handful of operand values per instruction; "
P = []


def p(id, title, statement, over, forall, why, files, mech, **k):
    P.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech, **k))


p("P01", "Integer instructions compute the RV64I result",
  "Every 64-bit base integer computational instruction writes exactly the value the RISC-V specification defines for its operands to its destination register, for all register operands (including aliased ones and x0), immediates and shift amounts. It changes no other register and no memory, and advances the program counter by the instruction's own length.",
  ["inputs"], "all register-file contents, operand indices, immediates, instruction lengths and program counters", ST + "the result must hold for every 64-bit operand pair and every aliasing.",
  [EX, CO, RG], [("handlers", EX), ("arithmetic helpers", CO), ("u64 register operations", RG)])
p("P02", "Multiply and divide match RV64M",
  "Every multiplication, division and remainder instruction, 64-bit and 32-bit, signed, unsigned and mixed, gives the value the RISC-V specification defines, including division by zero and signed overflow, and never faults. The fused wide forms give both halves (product high and low, quotient and remainder) of the same operands.",
  ["inputs"], "all 64-bit operand values, for every aliasing of destination and sources", ST + "corner cases of signed high multiplication and division are a vanishing share of the operand space.",
  [EX, RG], [("multiply/divide handlers", EX), ("overflowing_mul_high_*, overflowing_div/rem", RG)])
p("P03", "Bit-manipulation instructions match their specification",
  "Every supported bit-manipulation instruction (address generation, logical with negate, rotates, min/max, counts, byte reversal, or-combine, single-bit and carry-less multiplication, in 64-bit and 32-bit forms) writes exactly the specified value to its destination. Nothing else changes except the program counter.",
  ["inputs"], "all register-file contents, operand indices and immediates", ST + "bit-level results must hold for each of the 2^128 operand pairs.",
  [EX, RG], [("bit-manipulation handlers", EX), ("clz/ctz/cpop/clmul/rotate/...", RG)])
p("P04", "Atomic instructions follow the A extension",
  "An atomic read-modify-write instruction reads memory once at the address in its first source register, stores the specified combination of that value and its second source, and returns the sign-extended old value in its destination. A load-reserved records its address, and a store-conditional stores, and reports success, only when the reservation is for its own address; it always ends the reservation.",
  ["inputs", "fault_sequences"], "all register contents, operand aliasings, memory contents, reservation states, and failures of either memory access", ST + "aliased destination/source registers, failing accesses and stale reservations are not enumerated.",
  [EX], [("lr/sc and amo handlers", EX)])
p("P05", "Loads and stores access the right bytes",
  "A load reads exactly its width at base plus sign-extended offset (modulo 2^64) and writes the sign- or zero-extended value to its destination; a store writes exactly the low bytes of its source there. If the memory refuses the access, that error is returned and no register changes; version 0 loads additionally refuse an access that ends exactly at the memory size.",
  ["inputs", "fault_sequences"], "all register contents, offsets, memory values and sizes, versions, and failing accesses", ST + "address wrap-around, extension of every value and fault behaviour need every input.",
  [EX, CO], [("load/store handlers", EX), ("load/store helpers", CO)])
p("P06", "Control flow goes exactly where the ISA says",
  "A conditional branch goes to pc plus its offset if and only if its comparison holds, and otherwise to the next instruction; a jump goes to its exact target (an indirect one with bit 0 cleared) and writes the address of the following instruction to its link register. Environment calls invoke the environment exactly once and return its error, fences do nothing, and internal opcodes are refused without effect.",
  ["inputs"], "all register contents, offsets, program counters, instruction lengths and versions, including a link register that is also the base register", ST + "targets, link values and aliasing must be right for every value.",
  [EX, CO], [("branch and jump handlers", EX), ("jal/jalr helpers", CO)])
p("P07", "Both dispatch paths run the same instruction",
  "Executing a decoded instruction directly and executing it through the handler table have the same effect for every opcode, each of which has a handler. A number that is no opcode has no handler and is refused with that number and without any effect.",
  ["inputs"], "all 158 opcodes, and every 16-bit number for table membership", "Stepping and trace machines use different dispatchers, and tests compare whole programs on a subset of opcodes.",
  [EX, "definitions/src/instructions.rs"], [("execute_instruction", EX), ("ThreadFactory", EX)])
p("P10", "32-bit instruction words decode per the ISA tables",
  "Every 32-bit instruction word that the base, multiply, atomic or bit-manipulation specification defines decodes to that instruction with its registers and immediate, at every version (version 0 and later use their own variants of loads and indirect jumps), and its length is 4. Every other word is refused, and extension words are decoded only when their extension is enabled.",
  ["inputs", "configurations"], "all 2^32 words, all versions, all combinations of enabled extensions", "Tests decode the words compilers emit; decoding must be right for all 2^32 words.",
  ["src/instructions/i.rs", "src/instructions/m.rs", "src/instructions/a.rs", "src/instructions/b.rs", "src/instructions/utils.rs", DE],
  [("factory functions", "src/instructions/{i,m,a,b}.rs"), ("immediate extraction", "src/instructions/utils.rs"), ("build_decoder", DE)])
p("P11", "Compressed instructions decode to their expansion",
  "Every 16-bit word that the C extension defines for RV64 decodes to the instruction it abbreviates, with the right registers and scaled, sign-extended immediate, and length 2. Reserved encodings and words that are not compressed instructions are not decoded; hints behave as the code's version promises.",
  ["inputs"], "all 2^16 halfwords and all versions", "Tests cover compiler output; reserved encodings and immediate bit scrambling need all 2^16 words.",
  ["src/instructions/rvc.rs", "src/instructions/utils.rs"], [("rvc factory", "src/instructions/rvc.rs")])
p("P12", "The internal instruction form is lossless",
  "An instruction built from an opcode, register indices and an immediate yields back exactly those fields and the length it was given, in every format, and setting the length changes nothing else. An instruction is classified as ending a basic block exactly when it can change the program counter or leave the machine.",
  ["inputs"], "all opcodes, register indices, immediates of each format's width, and lengths", "Bit packing must be inverse for every field value; tests use a few.",
  ["src/instructions/mod.rs", "definitions/src/instructions.rs"], [("Rtype..R5type, set_instruction_length_*", "src/instructions/mod.rs")])
p("P13", "Instruction fetch reads only executable instruction bytes",
  "Decoding at an address uses exactly the bytes of the instruction there (two for a compressed one, else four), also across a page boundary, and fails when any of those bytes is not executable or the address is outside memory. A following page is never required for a compressed instruction, and an undecodable word is reported with its address and bits.",
  ["inputs"], "all even program counters, memory sizes, instruction bits and per-page executability", "Tests place code at a few addresses; page-end instructions next to non-executable pages are not covered.",
  [DE, "src/memory/mod.rs"], [("decode_bits, decode_raw", DE)])
p("P14", "The instruction cache is invisible",
  "While code does not change, decoding an address gives the same result as a decoder that never cached anything, whatever was decoded before. After the cache is reset, decoding reflects the current code.",
  ["histories", "inputs"], "all pairs of addresses (any earlier decode and any later one), all code contents, with and without a reset between them", "A cache confusion needs two particular addresses; tests never search for one.",
  [DE], [("instruction cache", DE)], hook="cfg(kani): smaller cache")
p("P15", "Fused instruction sequences behave like the sequence",
  "With macro-operation fusion on (version 1 or later), what is executed for the instructions at an address has exactly the effect of the unfused instructions it replaces, on every register and on the program counter, and its length is the sum of theirs; only instructions that decode on their own are fused. Version 1 far jumps are promised this only when the jump goes through and links the return-address register and the target fits in 32 bits.",
  ["programs", "inputs"], "all instruction sequences, operand aliasings, immediates, program counters and register contents", "A wrong fusion needs a particular sequence with particular aliasing; tests use the idioms compilers emit.",
  [DE, EX], [("decode_mop rules", DE), ("fused handlers", EX)])
ME = "src/memory/"
p("P20", "Flat memory is a byte array",
  "Every access to a flat memory inside its bounds reads, or changes, exactly the addressed bytes, little-endian, and every store marks exactly the pages it touched dirty; setting, clearing and reading a page's flags affect only that page. An access with any byte outside memory fails and changes no byte, whatever its address and width.",
  ["inputs", "histories"], "all memory contents, sizes, flags, addresses (including ones that wrap) and values, from every state of the memory", "Aliasing, page-crossing, end-of-memory and wrap-around behaviour must hold at every address and size.",
  [ME + "flat.rs", ME + "mod.rs"], [("FlatMemory", ME + "flat.rs"), ("check_no_overflow", ME + "mod.rs")])
p("P21", "Sparse memory behaves like flat memory",
  "A sparse memory reads as the last value stored at each byte, zero where nothing was stored, at every address, width and page crossing; a store changes exactly the addressed bytes and marks exactly the touched pages dirty, however many pages are in use. Two pages never share contents, and an access outside memory fails.",
  ["inputs", "histories"], "all page tables, page contents, sizes, flags, addresses and values, from every reachable state of the memory", "Page-table confusion needs particular page counts and orders of first touches, which tests do not enumerate.",
  [ME + "sparse.rs", ME + "mod.rs"], [("SparseMemory", ME + "sparse.rs")], hook="cfg(kani): builds any state")
p("P22", "No page is both writable and executable in effect",
  "With the write-xor-execute wrapper, a store of any width or length succeeds only if every page it touches is not executable, and an instruction fetch only if every page it touches is executable; otherwise the first offending page is reported and nothing reaches memory. Loads, flags and reservations pass through unchanged.",
  ["inputs", "fault_sequences"], "all addresses, widths, page flags, memory sizes, and failures of the wrapped memory", "The check must hold for every page combination of a crossing access and at the end of the address space.",
  [ME + "wxorx.rs", ME + "mod.rs"], [("WXorXMemory", ME + "wxorx.rs"), ("check_permission, set_dirty, get_page_indices", ME + "mod.rs")])
p("P23", "Page initialisation writes the source, zeroes the rest, and respects freezing",
  "Initialising pages puts the source bytes at the given offset and zeroes every other byte of the range, changes no byte outside it, and sets the given flags on exactly its pages. Unaligned or out-of-range requests, offsets beyond the range and frozen pages are refused without changing contents, so a frozen page never changes by initialisation.",
  ["inputs"], "all addresses, sizes, offsets, source lengths and page flags", "Alignment, overflow and partial-fill corner cases are sampled thinly.",
  [ME + "mod.rs", ME + "wxorx.rs"], [("fill_page_data", ME + "mod.rs"), ("WXorXMemory::init_pages", ME + "wxorx.rs")])
p("P24", "Bounds and page arithmetic never wraps",
  "The checks that guard memory accept a range if and only if it lies wholly inside memory, for every 64-bit address and length; the pages they derive from a range are exactly the pages it touches. Rounding to a power of two gives the nearest multiple.",
  ["inputs"], "all addresses, lengths and memory sizes", "An overflow in a bounds check needs extreme values.",
  [ME + "mod.rs", "src/bits.rs"], [("check_no_overflow, get_page_indices, round_page_*", ME + "mod.rs"), ("rounding", "src/bits.rs")])
MA = "src/machine/mod.rs"
p("P33", "The cycle limit is exact and is charged before the effect",
  "Every step charges exactly the cost function's value for the instruction at the program counter, before executing it, once. If the total would exceed the limit, or overflow, the step fails and neither the count nor anything else changes, so no instruction ever executes beyond the limit.",
  ["inputs", "histories", "fault_sequences"], "all machine states, cycle counts, limits, cost functions, and decoded instructions", "Off-by-one and overflow at the limit need exact counts; tests use a few programs.",
  [MA], [("add_cycles, step", MA)])
p("P35", "Environment calls and breakpoints reach exactly the right handler",
  "Environment call 93 stops the machine with the low byte of a0 as signed exit code. Any other call is offered to the registered syscalls in order until one processes it or fails; its outcome decides, a call nobody processes is an error naming its number, and spending more cycles than allowed in a syscall is an error. A breakpoint goes to the debugger if there is one and otherwise does nothing.",
  ["inputs", "fault_sequences"], "all register contents and cycle counts, and every behaviour of up to three syscalls", "Order, short-circuiting and the cycle check after a syscall need particular handler combinations.",
  [MA], [("DefaultMachine::ecall, ebreak", MA)])
p("P38", "Reset leaves no trace of the previous program",
  "After a machine is reset, all registers, the program counter and the cycle count are zero, memory is reset, no address is reserved, the limit is the new one, and the running loop is told exactly once to forget decoded instructions. Machine accessors and mutators affect exactly the part they name.",
  ["histories", "inputs"], "all machine states", "A leftover after reset shows only for the state that was left over.",
  [MA], [("DefaultCoreMachine", MA), ("DefaultMachine", MA)])
PROPERTIES = P
