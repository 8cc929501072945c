//! Macro-operation fusion. Two halves that meet in `fused`, the spec function of the fused operations:
//! (a) `decode`: for every stream of decodable instructions (the contract of `decode_raw`: any well-formed
//!     instruction or a refusal at each instruction boundary), what `decode_mop` returns is either the first
//!     instruction itself, or a fused operation whose spec function has, for every register file, exactly the
//!     effect of the instructions it replaces, with their total length, and which satisfies `pre`;
//! (b) `exec`: for operands satisfying `pre`, each fused handler computes its spec function.
//! The multiply/divide pairs use hi/lo as uninterpreted functions of the operand values in (a); their handlers
//! are under contract in `muldiv`.
use crate::ghost::{any_regs, gm, run, sext};
use crate::nd;
use ckb_vm::decoder::Decoder;
use ckb_vm::instructions::insts::*;
use ckb_vm::instructions::*;
use ckb_vm::machine::CoreMachine;
use ckb_vm::{Bytes, Error, Memory};

pub const N: usize = 5;
static mut BASE: u64 = 0;
static mut POS: [u64; N] = [0; N];
static mut INST: [u64; N] = [0; N];
static mut OKAY: [bool; N] = [false; N];

/// the contract of `Decoder::decode_raw` on the stream
#[cfg(kani)]
pub fn decode_raw<M: Memory>(_d: &mut Decoder, _m: &mut M, pc: u64) -> Result<Instruction, Error> {
    unsafe {
        let off = pc.wrapping_sub(BASE);
        let mut k = 0;
        while k < N {
            if off == POS[k] && OKAY[k] {
                return Ok(INST[k]);
            }
            k += 1;
        }
        Err(Error::Asm(91))
    }
}
/// the same stream as memory contents and a factory (native replay runs the real `decode_raw`)
fn factory(bits: u32, _version: u32) -> Option<u64> {
    let k = (bits >> 2) as usize;
    unsafe {
        if k >= 1 && k <= N && OKAY[k - 1] { Some(INST[k - 1]) } else { None }
    }
}
pub struct Stream;
impl Stream {
    fn half(&self, a: u64) -> u16 {
        unsafe {
            let mut k = 0;
            while k < N {
                if a.wrapping_sub(BASE) == POS[k] {
                    return ((k as u16 + 1) << 2) | if instruction_length(INST[k]) == 4 { 3 } else { 1 };
                }
                k += 1;
            }
        }
        0
    }
    fn bad<T>(&self) -> Result<T, Error> {
        Err(Error::Asm(90))
    }
}
impl Memory for Stream {
    type REG = u64;
    fn reset_memory(&mut self) -> Result<(), Error> { self.bad() }
    fn init_pages(&mut self, _: u64, _: u64, _: u8, _: Option<Bytes>, _: u64) -> Result<(), Error> { self.bad() }
    fn fetch_flag(&mut self, _: u64) -> Result<u8, Error> { self.bad() }
    fn set_flag(&mut self, _: u64, _: u8) -> Result<(), Error> { self.bad() }
    fn clear_flag(&mut self, _: u64, _: u8) -> Result<(), Error> { self.bad() }
    fn memory_size(&self) -> usize { usize::MAX }
    fn store_byte(&mut self, _: u64, _: u64, _: u8) -> Result<(), Error> { self.bad() }
    fn store_bytes(&mut self, _: u64, _: &[u8]) -> Result<(), Error> { self.bad() }
    fn load_bytes(&mut self, _: u64, _: u64) -> Result<Bytes, Error> { self.bad() }
    fn execute_load16(&mut self, a: u64) -> Result<u16, Error> { Ok(self.half(a)) }
    fn execute_load32(&mut self, a: u64) -> Result<u32, Error> {
        Ok(self.half(a) as u32 | (self.half(a + 2) as u32) << 16)
    }
    fn load8(&mut self, _: &u64) -> Result<u64, Error> { self.bad() }
    fn load16(&mut self, _: &u64) -> Result<u64, Error> { self.bad() }
    fn load32(&mut self, _: &u64) -> Result<u64, Error> { self.bad() }
    fn load64(&mut self, _: &u64) -> Result<u64, Error> { self.bad() }
    fn store8(&mut self, _: &u64, _: &u64) -> Result<(), Error> { self.bad() }
    fn store16(&mut self, _: &u64, _: &u64) -> Result<(), Error> { self.bad() }
    fn store32(&mut self, _: &u64, _: &u64) -> Result<(), Error> { self.bad() }
    fn store64(&mut self, _: &u64, _: &u64) -> Result<(), Error> { self.bad() }
    fn lr(&self) -> &u64 { unsafe { &*std::ptr::addr_of!(BASE) } }
    fn set_lr(&mut self, _: &u64) {}
}

/// machine state the sequences act on
#[derive(Clone, Copy)]
pub struct St {
    pub x: [u64; 32],
    pub pc: u64,
}
impl St {
    fn set(&mut self, r: usize, v: u64) {
        if r != 0 {
            self.x[r] = v;
        }
    }
}
/// values of the uninterpreted hi/lo pair: hi(a0, b0), lo(a0, b0), and any other application
struct Mul {
    first: u16,
    second: u16,
    a: u64,
    b: u64,
    hi: u64,
    lo: u64,
    other: u64,
}
/// one instruction of the stream, per the ISA
fn step(s: &mut St, inst: u64, u: &Mul) {
    let op = extract_opcode(inst);
    let len = instruction_length(inst) as u64;
    let (r, i, l) = (Rtype(inst), Itype(inst), Utype(inst));
    let (a, b) = (s.x[r.rs1() & 31], s.x[r.rs2() & 31]);
    let mut next = s.pc.wrapping_add(len);
    if op == OP_ADD {
        s.set(r.rd(), a.wrapping_add(b));
    } else if op == OP_SUB {
        s.set(r.rd(), a.wrapping_sub(b));
    } else if op == OP_SLTU {
        s.set(r.rd(), (a < b) as u64);
    } else if op == OP_OR {
        s.set(r.rd(), a | b);
    } else if op == OP_AND {
        s.set(r.rd(), a & b);
    } else if op == OP_LUI {
        s.set(l.rd(), l.immediate_s() as i64 as u64);
    } else if op == OP_AUIPC {
        s.set(l.rd(), s.pc.wrapping_add(l.immediate_s() as i64 as u64));
    } else if op == OP_ADDI {
        s.set(i.rd(), s.x[i.rs1() & 31].wrapping_add(i.immediate_s() as i64 as u64));
    } else if op == OP_ADDIW {
        s.set(i.rd(), sext(s.x[i.rs1() & 31].wrapping_add(i.immediate_s() as i64 as u64) & 0xffff_ffff, 32));
    } else if op == OP_JALR_VERSION1 {
        let t = s.x[i.rs1() & 31].wrapping_add(i.immediate_s() as i64 as u64) & !1;
        s.set(i.rd(), next);
        next = t;
    } else {
        // multiply/divide
        let v = if op == u.first && a == u.a && b == u.b { u.hi } else if op == u.second && a == u.a && b == u.b { u.lo } else { u.other };
        s.set(r.rd(), v);
    }
    s.pc = next;
}
/// a register-register instruction of an idiom, per the ISA
fn alu(s: &mut St, (op, rd, rs1, rs2): (u16, usize, usize, usize)) {
    let (a, b) = (s.x[rs1], s.x[rs2]);
    s.set(rd, match op {
        OP_ADD => a.wrapping_add(b),
        OP_SUB => a.wrapping_sub(b),
        OP_SLTU => (a < b) as u64,
        _ => a | b,
    });
}
/// spec function of the fused operations; false: not a fused operation
fn fused(s: &mut St, inst: u64, u: &Mul) -> bool {
    let op = extract_opcode(inst);
    let len = instruction_length(inst) as u64;
    let (r3, r4, r5, l) = (Rtype(inst), R4type(inst), R5type(inst), Utype(inst));
    let x = s.x;
    let mut next = s.pc.wrapping_add(len);
    if op == OP_ADC {
        let p = x[r3.rd()].wrapping_add(x[r3.rs1()]);
        let c1 = (p < x[r3.rs1()]) as u64;
        let q = p.wrapping_add(x[r3.rs2()]);
        let c2 = (q < x[r3.rs2()]) as u64;
        s.set(r3.rd(), q);
        s.set(r3.rs1(), c1 | c2);
        s.set(r3.rs2(), c2);
    } else if op == OP_SBB {
        let p = x[r4.rd()].wrapping_sub(x[r4.rs1()]);
        let b1 = (x[r4.rd()] < p) as u64;
        let q = p.wrapping_sub(x[r4.rs2()]);
        let b2 = (p < q) as u64;
        s.set(r4.rd(), q);
        s.set(r4.rs3(), b1);
        s.set(r4.rs2(), b2);
        s.set(r4.rs1(), b1 | b2);
    } else if op == OP_ADCS {
        let v = x[r4.rs1()].wrapping_add(x[r4.rs2()]);
        s.set(r4.rd(), v);
        s.set(r4.rs3(), (v < x[r4.rs1()]) as u64);
    } else if op == OP_SBBS {
        s.set(r4.rd(), x[r4.rs1()].wrapping_sub(x[r4.rs2()]));
        s.set(r4.rs3(), (x[r4.rs1()] < x[r4.rs2()]) as u64);
    } else if op == OP_ADD3A {
        let v = x[r5.rd()].wrapping_add(x[r5.rs1()]);
        let c = (v < x[r5.rs1()]) as u64;
        s.set(r5.rd(), v);
        s.set(r5.rs2(), c);
        s.set(r5.rs3(), c.wrapping_add(x[r5.rs4()]));
    } else if op == OP_ADD3B {
        let v = x[r5.rs1()].wrapping_add(x[r5.rs2()]);
        let c = (v < x[r5.rs1()]) as u64;
        s.set(r5.rd(), v);
        s.set(r5.rs1(), c);
        s.set(r5.rs3(), c.wrapping_add(x[r5.rs4()]));
    } else if op == OP_ADD3C {
        let v = x[r5.rs1()].wrapping_add(x[r5.rs2()]);
        let c = (v < x[r5.rs1()]) as u64;
        s.set(r5.rd(), v);
        s.set(r5.rs3(), c.wrapping_add(x[r5.rs4()]));
    } else if op == OP_CUSTOM_LOAD_IMM {
        s.set(l.rd(), l.immediate_s() as i64 as u64);
    } else if op == OP_FAR_JUMP_ABS {
        s.set(1, next);
        next = l.immediate_s() as i64 as u64 & !1;
    } else if op == OP_FAR_JUMP_REL {
        s.set(1, next);
        next = s.pc.wrapping_add(l.immediate_s() as i64 as u64) & !1;
    } else if op == OP_WIDE_MUL || op == OP_WIDE_MULU || op == OP_WIDE_MULSU || op == OP_WIDE_DIV || op == OP_WIDE_DIVU {
        let hi = match op {
            OP_WIDE_MUL => OP_MULH,
            OP_WIDE_MULU => OP_MULHU,
            OP_WIDE_MULSU => OP_MULHSU,
            OP_WIDE_DIV => OP_DIV,
            _ => OP_DIVU,
        };
        // hi and lo of the same operands; anything else is "other"
        let same = x[r4.rs1()] == u.a && x[r4.rs2()] == u.b && u.first == hi;
        s.set(r4.rd(), if same { u.hi } else { !u.other });
        s.set(r4.rs3(), if same { u.lo } else { !u.other });
    } else {
        return false;
    }
    s.pc = next;
    true
}
/// the operand conditions under which a fused handler is used
fn pre(inst: u64) -> bool {
    let (r3, r4, r5) = (Rtype(inst), R4type(inst), R5type(inst));
    match extract_opcode(inst) {
        OP_ADC => {
            let (a, b, c) = (r3.rd(), r3.rs1(), r3.rs2());
            a != b && a != c && b != c && a != 0 && b != 0 && c != 0
        }
        OP_SBB => {
            let (a, b, c, d) = (r4.rd(), r4.rs1(), r4.rs2(), r4.rs3());
            a != b && a != c && a != d && b != c && b != d && c != d && a != 0 && b != 0 && c != 0 && d != 0
        }
        OP_ADCS => r4.rd() != r4.rs1() && r4.rd() != 0,
        OP_SBBS => r4.rd() != r4.rs1() && r4.rd() != r4.rs2(),
        OP_ADD3A => r5.rd() != r5.rs1() && r5.rd() != r5.rs4() && r5.rs2() != r5.rs4() && r5.rd() != 0 && r5.rs2() != 0,
        OP_ADD3B => r5.rd() != r5.rs1() && r5.rd() != r5.rs4() && r5.rs1() != r5.rs4() && r5.rd() != 0 && r5.rs1() != 0,
        OP_ADD3C => r5.rd() != r5.rs1() && r5.rd() != r5.rs4() && r5.rs3() != r5.rs4() && r5.rd() != 0 && r5.rs3() != 0,
        OP_WIDE_MUL | OP_WIDE_MULU | OP_WIDE_MULSU | OP_WIDE_DIV | OP_WIDE_DIVU => {
            r4.rd() != r4.rs1() && r4.rd() != r4.rs2() && r4.rd() != r4.rs3()
        }
        _ => true,
    }
}
/// the `k`-th instruction of the sequence a fused operation stands for, as (op, rd, rs1, rs2)
fn idiom(op: u16, inst: u64, k: usize) -> Option<(u16, usize, usize, usize)> {
    let (r3, r4, r5) = (Rtype(inst), R4type(inst), R5type(inst));
    let (a, b, c, d, e) = (r5.rd(), r5.rs1(), r5.rs2(), r5.rs3(), r5.rs4());
    Some(match (op, k) {
        (OP_ADC, 0) => (OP_ADD, r3.rd(), r3.rd(), r3.rs1()),
        (OP_ADC, 1) => (OP_SLTU, r3.rs1(), r3.rd(), r3.rs1()),
        (OP_ADC, 2) => (OP_ADD, r3.rd(), r3.rd(), r3.rs2()),
        (OP_ADC, 3) => (OP_SLTU, r3.rs2(), r3.rd(), r3.rs2()),
        (OP_ADC, 4) => (OP_OR, r3.rs1(), r3.rs1(), r3.rs2()),
        (OP_SBB, 0) => (OP_SUB, r4.rs1(), r4.rd(), r4.rs1()),
        (OP_SBB, 1) => (OP_SLTU, r4.rs3(), r4.rd(), r4.rs1()),
        (OP_SBB, 2) => (OP_SUB, r4.rd(), r4.rs1(), r4.rs2()),
        (OP_SBB, 3) => (OP_SLTU, r4.rs2(), r4.rs1(), r4.rd()),
        (OP_SBB, 4) => (OP_OR, r4.rs1(), r4.rs2(), r4.rs3()),
        (OP_ADD3A, 0) => (OP_ADD, a, b, a),
        (OP_ADD3A, 1) => (OP_SLTU, c, a, b),
        (OP_ADD3A, 2) => (OP_ADD, d, c, e),
        (OP_ADD3B, 0) => (OP_ADD, a, b, c),
        (OP_ADD3B, 1) => (OP_SLTU, b, a, b),
        (OP_ADD3B, 2) => (OP_ADD, d, b, e),
        (OP_ADD3C, 0) => (OP_ADD, a, b, c),
        (OP_ADD3C, 1) => (OP_SLTU, d, a, b),
        (OP_ADD3C, 2) => (OP_ADD, d, d, e),
        (OP_ADCS, 0) => (OP_ADD, r4.rd(), r4.rs1(), r4.rs2()),
        (OP_ADCS, 1) => (OP_SLTU, r4.rs3(), r4.rd(), r4.rs1()),
        (OP_SBBS, 0) => (OP_SUB, r4.rd(), r4.rs1(), r4.rs2()),
        (OP_SBBS, 1) => (OP_SLTU, r4.rs3(), r4.rs1(), r4.rs2()),
        (OP_WIDE_MUL, 0) => (OP_MULH, r4.rd(), r4.rs1(), r4.rs2()),
        (OP_WIDE_MULU, 0) => (OP_MULHU, r4.rd(), r4.rs1(), r4.rs2()),
        (OP_WIDE_MULSU, 0) => (OP_MULHSU, r4.rd(), r4.rs1(), r4.rs2()),
        (OP_WIDE_DIV, 0) => (OP_DIV, r4.rd(), r4.rs1(), r4.rs2()),
        (OP_WIDE_DIVU, 0) => (OP_DIVU, r4.rd(), r4.rs1(), r4.rs2()),
        (OP_WIDE_MUL, 1) | (OP_WIDE_MULU, 1) | (OP_WIDE_MULSU, 1) => (OP_MUL, r4.rs3(), r4.rs1(), r4.rs2()),
        (OP_WIDE_DIV, 1) => (OP_REM, r4.rs3(), r4.rs1(), r4.rs2()),
        (OP_WIDE_DIVU, 1) => (OP_REMU, r4.rs3(), r4.rs1(), r4.rs2()),
        _ => return None,
    })
}
/// `inst` is `want`, up to the order of the operands of a commutative operation
fn is(inst: u64, want: (u16, usize, usize, usize)) -> bool {
    let r = Rtype(inst);
    let op = extract_opcode(inst);
    let swap = op == OP_ADD || op == OP_OR || op == OP_AND;
    op == want.0
        && r.rd() == want.1
        && (r.rs1() == want.2 && r.rs2() == want.3 || swap && r.rs2() == want.2 && r.rs1() == want.3)
}
fn reg() -> usize {
    nd::below(32) as usize
}
fn len(i: u64) -> u64 {
    if nd::bool() { set_instruction_length_2(i) } else { set_instruction_length_4(i) }
}
/// an arbitrary register-register instruction among `ops`
fn any_r(ops: &[u16]) -> u64 {
    let k = nd::below(ops.len() as u64) as usize;
    len(Rtype::new(ops[k], reg(), reg(), reg()).0)
}
/// an arbitrary immediate instruction
fn any_i(ops: &[u16]) -> u64 {
    let k = nd::below(ops.len() as u64) as usize;
    len(Itype::new_s(ops[k], reg(), reg(), crate::alu::simm12()).0)
}
fn any_u(op: u16) -> u64 {
    len(Utype::new_s(op, reg(), (nd::u32() & 0xffff_f000) as i32).0)
}
/// `n` instructions are put in the stream; decode; compare
fn check(insts: [u64; N], version: u32) {
    let head = insts[0];
    let base = nd::u64() & !1;
    nd::assume(base < 1 << 48);
    unsafe {
        BASE = base;
        INST = insts;
        let mut p = 0;
        let mut k = 0;
        while k < N {
            POS[k] = p;
            OKAY[k] = k == 0 || nd::bool();
            p += instruction_length(insts[k]) as u64;
            k += 1;
        }
    }
    let mut d = Decoder::new(true, version);
    #[cfg(not(kani))]
    d.add_instruction_factory(factory);
    let r = d.decode_mop(&mut Stream, base);
    std::mem::forget(d);
    let got = match &r { Ok(i) => *i, Err(_) => 0 };
    ensure!(r.is_ok(), "a decodable first instruction is returned whatever follows it");
    std::mem::forget(r);
    let op = extract_opcode(got);
    let n = match op {
        OP_ADC | OP_SBB => 5,
        OP_ADD3A | OP_ADD3B | OP_ADD3C => 3,
        OP_ADCS | OP_SBBS | OP_CUSTOM_LOAD_IMM | OP_FAR_JUMP_ABS | OP_FAR_JUMP_REL => 2,
        OP_WIDE_MUL | OP_WIDE_MULU | OP_WIDE_MULSU | OP_WIDE_DIV | OP_WIDE_DIVU => 2,
        _ => 1,
    };
    if n == 1 {
        ensure!(got == head, "an unfused instruction is returned as it was decoded");
        return;
    }
    reach!(n > 1, "a fused operation");
    let mut total = 0;
    let mut k = 0;
    while k < n {
        ensure!(unsafe { OKAY[k] }, "only decodable instructions are fused");
        total += instruction_length(insts[k]) as u64;
        k += 1;
    }
    ensure!(instruction_length(got) as u64 == total, "the fused instruction has the length of the instructions it replaces");
    ensure!(pre(got), "the operands satisfy the fused operation's precondition");
    // Register-register operations: the replaced instructions are the operation's idiom, whose effect is its
    // handler's (`exec`, and `muldiv` for the wide operations). A native run compares the effects themselves.
    #[cfg(kani)]
    if op != OP_CUSTOM_LOAD_IMM && op != OP_FAR_JUMP_ABS && op != OP_FAR_JUMP_REL {
        let mut k = 0;
        while k < n {
            let w = idiom(op, got, k);
            ensure!(match w { Some(w) => is(insts[k], w), None => false }, "the instructions replaced are exactly those the fused operation stands for");
            k += 1;
        }
        return;
    }
    let st = St { x: any_regs(), pc: base };
    let (h, f) = (Rtype(head), extract_opcode(head));
    let u = Mul {
        first: f,
        second: match f { OP_DIV => OP_REM, OP_DIVU => OP_REMU, _ => OP_MUL },
        a: st.x[h.rs1() & 31],
        b: st.x[h.rs2() & 31],
        hi: nd::u64(),
        lo: nd::u64(),
        other: nd::u64(),
    };
    let mut one = st;
    let mut many = st;
    let is = fused(&mut one, got, &u);
    ensure!(is, "the fused operation is known");
    let mut k = 0;
    while k < n {
        step(&mut many, insts[k], &u);
        k += 1;
    }
    ensure!(one.pc == many.pc, "pc after the fused operation is pc after the sequence");
    let k = reg();
    ensure!(one.x[k] == many.x[k], "every register after the fused operation is what the sequence leaves there");
}
const R5: &[u16] = &[OP_ADD, OP_SUB, OP_SLTU, OP_OR, OP_AND];
/// first two instructions from `h`, `t`; the rest arbitrary
fn pair(h: u64, t: u64, version: u32) {
    check([h, t, any_r(R5), any_r(R5), any_r(R5)], version);
}
fn version() -> u32 {
    nd::below(3) as u32
}
const MD: &[u16] = &[OP_MUL, OP_MULH, OP_MULHU, OP_MULHSU, OP_DIV, OP_DIVU, OP_REM, OP_REMU, OP_ADD];
/// far jumps: version 1 fuses jumps whose base register is not the link register, which the version 2 rule
/// excludes; the equivalence is stated for what both versions promise.
fn upper(op: u16) {
    let v = version();
    let h = any_u(op);
    let t = any_i(&[OP_JALR_VERSION1, OP_JALR_VERSION0, OP_ADDIW, OP_ADDI]);
    nd::assume(
        v >= 2
            || extract_opcode(t) != OP_JALR_VERSION1
            || (Utype(h).rd() == 1 && Utype(h).immediate_s().checked_add(Itype(t).immediate_s()).is_some()),
    );
    pair(h, t, v);
}
fn stream(op: u16) {
    check([any_r(&[op]), any_r(R5), any_r(R5), any_r(R5), any_r(R5)], version())
}
proofs! {
    #[cfg_attr(kani, kani::stub(ckb_vm::decoder::Decoder::decode_raw, decode_raw))]
    fn add [34] { stream(OP_ADD) }
    #[cfg_attr(kani, kani::stub(ckb_vm::decoder::Decoder::decode_raw, decode_raw))]
    fn sub [34] { stream(OP_SUB) }
    #[cfg_attr(kani, kani::stub(ckb_vm::decoder::Decoder::decode_raw, decode_raw))]
    fn lui [34] { upper(OP_LUI) }
    #[cfg_attr(kani, kani::stub(ckb_vm::decoder::Decoder::decode_raw, decode_raw))]
    fn auipc [34] { upper(OP_AUIPC) }
    #[cfg_attr(kani, kani::stub(ckb_vm::decoder::Decoder::decode_raw, decode_raw))]
    fn wide [34] { pair(any_r(&[OP_MULH, OP_MULHU, OP_MULHSU, OP_DIV, OP_DIVU]), any_r(MD), version()) }
    #[cfg_attr(kani, kani::stub(ckb_vm::decoder::Decoder::decode_raw, decode_raw))]
    fn other_head [34] {
        // any other instruction is never the start of a fused operation
        let h = nd::u64();
        let op = extract_opcode(h);
        nd::assume(op != OP_ADD && op != OP_SUB && op != OP_LUI && op != OP_AUIPC && op != OP_MULH && op != OP_MULHU);
        nd::assume(op != OP_MULHSU && op != OP_DIV && op != OP_DIVU);
        let h = set_instruction_length_4(h);
        let t = any_r(R5);
        unsafe {
            BASE = 0x1000;
            INST = [h, t, t, t, t];
            POS = [0, 4, 8, 12, 16];
            OKAY = [true; N];
        }
        let mut d = Decoder::new(true, version());
        #[cfg(not(kani))]
        d.add_instruction_factory(factory);
        let r = d.decode_mop(&mut Stream, 0x1000);
        ensure!(matches!(&r, Ok(i) if *i == h), "an instruction that starts no fused operation is returned as it was decoded");
        reach!(op == OP_ECALL, "an arbitrary instruction");
        std::mem::forget(r);
        std::mem::forget(d);
    }
}
pub mod exec {
    //! the handlers of the fused add/subtract operations compute `fused`
    use super::*;
    fn h(op: u16, inst: u64) {
        let inst = if extract_opcode(inst) == op { inst } else { 0 };
        nd::assume(pre(inst));
        let inst = set_instruction_length_n(inst, (nd::below(10) as u8 + 1) * 2);
        let mut regs = any_regs();
        let pre = regs;
        let mut m = gm(&mut regs, nd::below(3) as u32);
        let (lr, pc) = (m.mem.lr, m.pc);
        let mut want = St { x: pre, pc };
        let mut k = 0;
        while k < 5 {
            if let Some(w) = idiom(op, inst, k) {
                alu(&mut want, w);
            }
            k += 1;
        }
        want.pc = pc.wrapping_add(instruction_length(inst) as u64);
        let res = run(op, inst, &mut m);
        ensure!(res.is_ok(), "a fused operation succeeds");
        let k = reg();
        ensure!(m.registers()[k] == want.x[k], "every register holds what the sequence it stands for leaves there");
        ensure!(m.pc == want.pc, "pc advances by the fused length");
        ensure!(m.mem.n == 0 && !m.mem.bad && m.mem.lr == lr && m.ecalls == 0, "no other effect");
        reach!(want.x[k] != pre[k], "a register changes");
        std::mem::forget(res);
    }
    proofs! {
        fn adc [34] { h(OP_ADC, Rtype::new(OP_ADC, reg(), reg(), reg()).0) }
        fn sbb [34] { h(OP_SBB, R4type::new(OP_SBB, reg(), reg(), reg(), reg()).0) }
        fn adcs [34] { h(OP_ADCS, R4type::new(OP_ADCS, reg(), reg(), reg(), reg()).0) }
        fn sbbs [34] { h(OP_SBBS, R4type::new(OP_SBBS, reg(), reg(), reg(), reg()).0) }
        fn add3a [34] { h(OP_ADD3A, R5type::new(OP_ADD3A, reg(), reg(), reg(), reg(), reg()).0) }
        fn add3b [34] { h(OP_ADD3B, R5type::new(OP_ADD3B, reg(), reg(), reg(), reg(), reg()).0) }
        fn add3c [34] { h(OP_ADD3C, R5type::new(OP_ADD3C, reg(), reg(), reg(), reg(), reg()).0) }
    }
}
