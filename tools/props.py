"""Which harnesses decide which property. A unit is (regex over harness names, cargo features, seconds per
harness, tier)."""
import os, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NAMES = [l.strip() for l in open(os.path.join(HERE, "harness", "HARNESSES.txt")) if l.strip()]

TRUSTED = ["Kani 0.68 (MIR to GOTO translation)", "CBMC 6.11 symbolic execution and bit-blasting",
           "the SAT/SMT solver named under back_ends", "rustc nightly front end used by Kani"]
ASSUMPTIONS = ["Rust semantics as modelled by Kani (no concurrency, allocation never fails)",
               "the harness crate is compiled from /repo's working tree with default features unless stated"]


def known(prop):
    """known_findings.txt lines: `<property> | <substring of 'harness: failure'> | <text>`"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            a, m, t = [x.strip() for x in l.split("|", 2)]
            if a == prop:
                out.append(dict(match=m, text=t))
    return out


def scan(results):
    """Mechanical scan of the harness crate for assumptions."""
    src = os.path.join(HERE, "harness", "src")
    out = []
    for f in sorted(os.listdir(src)):
        if not f.endswith(".rs"):
            continue
        t = open(os.path.join(src, f)).read()
        n = len(re.findall(r"nd::assume\(|kani::assume\(", t))
        s = len(re.findall(r"kani::stub", t))
        if n or s:
            out.append("harness/src/%s: %d assume sites, %d stubs" % (f, n, s))
    return out


def is_bounded(h):
    return any(re.match(r, h) for r in BOUNDED)


def units(prop, tier):
    out = []
    for u in PROPS[prop]["units"]:
        if len(u) > 3 and u[3] == "thorough" and tier != "thorough":
            continue
        names = [n for n in NAMES if re.fullmatch(u[0], n)]
        assert names, u
        to = u[2] * (6 if tier == "thorough" else 1)
        out.append(dict(prefixes=names, expect=names, exact=True, features=u[1], timeout=to))
    return out


# harnesses whose domain is bounded (a stated size), never counted as proved
BOUNDED = [r"mem::flat_::bulk_.*", r"mem::sparse_::bulk_.*", r"wx::bulk::.*", r"vm::ecall_order\d"]

T = 200
PROPS = {
    "P01": dict(level="proof", units=[(r"alu::i64::.*", [], T)], functions=["handle_", "common::", "Register"],
                note="Every base integer handler against an ISA spec function, for all register files, operand indices, immediates, lengths and pcs; memory is only its contract."),
    "P02": dict(level="proof", units=[(r"muldiv::.*::(distinct|all_same|rd_is_x0|rs2_is_x0)", [], T),
                                      (r"muldiv::.*::(rd_is_rs1|rd_is_rs2|rs1_is_rs2|rs1_is_x0)", [], T, "thorough")],
                functions=["handle_", "common::", "Register"],
                note="Every multiply/divide handler for all 64-bit operand values; register operands are fixed per harness, one harness per aliasing pattern (quick: four patterns, thorough: eight)."),
    "P03": dict(level="proof", units=[(r"alu::bitmanip::.*", [], T)], functions=["handle_", "common::", "Register"],
                note="Every bit-manipulation handler against a spec function, for all register files, operand indices and immediates."),
    "P04": dict(level="proof", units=[(r"memop::atomic::.*", [], T)], functions=["handle_", "common::"],
                note="LR/SC/AMO handlers over a memory that is only its contract (arbitrary values and arbitrary failures): accesses, order, values, registers, reservation."),
    "P05": dict(level="proof", units=[(r"memop::ls::.*", [], T)], functions=["handle_", "common::"],
                note="Load/store handlers over a memory that is only its contract (arbitrary values and arbitrary failures)."),
    "P06": dict(level="proof", units=[(r"control::c::.*", [], T)], functions=["handle_", "common::"],
                note="Branch, jump, far-jump, environment and fence handlers for all operands, offsets, pcs, lengths and versions."),
    "P07": dict(level="proof", units=[(r"dispatch::.*", [], T)], functions=["execute", "ThreadFactory"],
                note="Table membership for every 16-bit number; the two dispatchers are compared opcode by opcode on a fixed machine state (which handler runs does not depend on the state)."),
    "P10": dict(level="proof", units=[(r"decode::w::(base|mul|atomic|bitmanip|gating).*", [], T)], functions=["factory", "utils::"],
                note="All 2^32 words and versions against mask/match tables transcribed from the ISA."),
    "P11": dict(level="proof", units=[(r"decode::w::compressed.*", [], T)], functions=["factory", "utils::"],
                note="All 2^16 halfwords (and every 32-bit word with other low bits) against a C-extension spec function."),
    "P12": dict(level="proof", units=[(r"encode::.*", [], T)], functions=["instructions::"],
                note="All opcodes, indices, immediates of each format's width and lengths."),
    "P13": dict(level="proof", units=[(r"fetch::(fetch|no_fusion)", [], T)], functions=["decoder::"],
                note="All even pcs, memory sizes, halfwords, page executability; decoders of instruction words are arbitrary functions with two-way priority."),
    "P14": dict(level="proof", units=[(r"fetch::cache::.*", [], T)], functions=["decoder::"],
                note="Two-decode induction step over all address pairs, and reset; the cache has 16 slots in verification builds instead of 4096 (hook).",
                assume=["the verification build's cache has 16 slots (cfg(kani)); the slot function is otherwise the code's own"]),
    "P15": dict(level="proof", units=[(r"mop::.*", [], 400)], functions=["decoder::", "handle_"],
                note="decode_mop against the contract of decode_raw (stubbed), fused handlers against the sequence they stand for; wide multiply/divide handlers are proved under P02.",
                assume=["decode_raw is replaced by its contract (P13, P14)"]),
    "P20": dict(level="proof", units=[(r"mem::flat_::.*", [], 300)], functions=["memory::"],
                note="Every operation from an arbitrary memory state (contents, flags, size up to 1 GB, reservation), against a byte array with a symbolic probe byte; bulk operations are bounded to two pages of data.",
                bounds=["memory size at most 2^18 pages (1 GB)", "store_bytes, store_byte: at most two pages of data"]),
    "P21": dict(level="proof", units=[(r"mem::sparse_::.*", [], 500)], functions=["memory::"],
                note="Every operation from an arbitrary valid state (page table, page contents, flags, size), against the byte array it represents; wide accesses over the byte access's contract; bulk operations are bounded to one page of data.",
                assume=["the representation invariant (page table injective, indices in range) holds before the operation; it is proved after it", "fetch_page is replaced by its contract in the wide accesses"],
                bounds=["memory size at most 2^18 pages (1 GB)", "store_bytes, store_byte, load_bytes: at most one page of data"]),
    "P22": dict(level="proof", units=[(r"wx::(store|load|execute_load)\d+|wx::(reservation|flags|load_bytes)", [], T), (r"wx::bulk::(store_bytes|store_byte|permission|dirty)", [], T)],
                functions=["memory::"], note="The wrapper over a memory that is only its contract (any size, flags, failure); scalar accesses in full, bulk stores bounded to three pages of data.",
                bounds=["store_bytes, store_byte: at most three pages of data; check_permission, set_dirty: at most four pages"]),
    "P23": dict(level="proof", units=[(r"wx::fill::.*|wx::bulk::init_pages", [], 400)], functions=["memory::"],
                note="fill_page_data over the contract of store_byte/store_bytes for all sizes and offsets; the wrapper's init_pages over the wrapped memory's contract, at most four pages.",
                bounds=["WXorXMemory::init_pages: at most four pages accepted (any size refused)"]),
    "P24": dict(level="proof", units=[(r"wx::helpers::.*", [], T)], functions=["memory::", "bits::"],
                note="All addresses, lengths and sizes."),
    "P33": dict(level="proof", units=[(r"vm::(add_cycles|add_cycles_no_checking|step)", [], T)], functions=["machine::"],
                note="All machine states; the decoder, the cost function and the memory are arbitrary; execute is replaced by its contract (any effect, any result), which P01-P07 decide.",
                assume=["execute is replaced by a stub that records its call (P01-P07 are its contract)"]),
    "P35": dict(level="proof", units=[(r"vm::(exit|ecall_order\d|ebreak)", [], T)], functions=["machine::"],
                note="All states and handler behaviours; the number of registered syscalls is zero to three (bounded).", bounds=["ecall_order: at most three registered syscalls"]),
    "P38": dict(level="proof", units=[(r"vm::(reset|accessors|delegate)", [], T)], functions=["machine::"],
                note="All machine states; memory is its contract (P20, P21 prove reset_memory)."),
}
