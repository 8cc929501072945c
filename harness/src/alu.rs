//! Contracts of the integer and bit-manipulation instruction handlers (RV64I, Zba/Zbb/Zbc/Zbs):
//! for every register file, pc, operand registers, immediate and instruction length, the destination
//! register holds the value the ISA prescribes, x0 stays zero, every other register is unchanged, no
//! memory access happens and pc advances by the instruction's length.
use crate::ghost::*;
use crate::nd;
use ckb_vm::instructions::*;
use ckb_vm::machine::CoreMachine;

pub struct Sym {
    pub rd: usize,
    pub rs1: usize,
    pub rs2: usize,
    pub k: usize,
    pub a: u64,
    pub b: u64,
    pub old: u64,
    pub len: u8,
}
/// Symbolic operands; `a`, `b`, `old` are the values of rs1, rs2 and of the frame witness k.
pub fn sym(m: &Gm) -> Sym {
    let rd = nd::below(32) as usize;
    let rs1 = nd::below(32) as usize;
    let rs2 = nd::below(32) as usize;
    let k = nd::below(32) as usize;
    let len = if nd::bool() { 2 } else { 4 };
    #[cfg(kani)]
    let (a, b, old) = {
        // naming the operand values keeps the solver query small; any() + assume of equality is a
        // definition, not a restriction
        let (a, b, old) = (nd::u64(), nd::u64(), nd::u64());
        kani::assume(m.registers()[rs1] == a);
        kani::assume(m.registers()[rs2] == b);
        kani::assume(m.registers()[k] == old);
        (a, b, old)
    };
    #[cfg(not(kani))]
    let (a, b, old) = {
        let _ = (nd::defined(), nd::defined(), nd::defined());
        (m.registers()[rs1], m.registers()[rs2], m.registers()[k])
    };
    Sym { rd, rs1, rs2, k, a, b, old, len }
}
pub fn with_len(i: u64, len: u8) -> u64 {
    if len == 2 { set_instruction_length_2(i) } else { set_instruction_length_4(i) }
}
#[inline(always)]
pub fn finish(m: &Gm, s: &Sym, pc: u64, ok: bool, value: u64) {
    ensure!(ok, "an ALU instruction always succeeds");
    let want = if s.k == 0 { 0 } else if s.k == s.rd { value } else { s.old };
    ensure!(m.registers()[s.k] == want, "rd holds the ISA-defined result; every other register is unchanged; x0 is zero");
    ensure!(m.pc == pc.wrapping_add(s.len as u64), "pc advances by the instruction length");
    ensure!(m.mem.n == 0 && !m.mem.bad && m.ecalls == 0 && m.ebreaks == 0, "no memory access, no environment call");
    reach!(s.k == s.rd && s.rd != 0, "result observed");
}
#[inline(always)]
pub fn r(op: u16, spec: impl Fn(u64, u64) -> u64) {
    let mut regs = any_regs();
    let mut m = gm(&mut regs, nd::below(3) as u32);
    let s = sym(&m);
    let pc = m.pc;
    let lr = m.mem.lr;
    let inst = with_len(Rtype::new(op, s.rd, s.rs1, s.rs2).0, s.len);
    let res = run(op, inst, &mut m);
    finish(&m, &s, pc, res.is_ok(), spec(s.a, s.b));
    ensure!(m.mem.lr == lr, "the reservation is unchanged");
    std::mem::forget(res);
}
/// immediate = any value `imm` admits
#[inline(always)]
pub fn i(op: u16, imm: i32, spec: impl Fn(u64, i32) -> u64) {
    let mut regs = any_regs();
    let mut m = gm(&mut regs, nd::below(3) as u32);
    let s = sym(&m);
    let pc = m.pc;
    let inst = with_len(Itype::new_s(op, s.rd, s.rs1, imm).0, s.len);
    let res = run(op, inst, &mut m);
    finish(&m, &s, pc, res.is_ok(), spec(s.a, imm));
    std::mem::forget(res);
}
pub fn simm12() -> i32 {
    let v = nd::u16();
    ((v << 4) as i16 >> 4) as i32
}
pub fn shamt(bits: u32) -> i32 {
    nd::below(1u64 << bits) as i32
}
#[inline(always)]
pub fn u(op: u16, spec: impl Fn(u64, i32) -> u64) {
    let mut regs = any_regs();
    let mut m = gm(&mut regs, nd::below(3) as u32);
    let s = sym(&m);
    let pc = m.pc;
    let imm = (nd::u32() & 0xffff_f000) as i32;
    let inst = with_len(Utype::new_s(op, s.rd, imm).0, s.len);
    let res = run(op, inst, &mut m);
    finish(&m, &s, pc, res.is_ok(), spec(pc, imm));
    std::mem::forget(res);
}
fn w(v: u64) -> u64 {
    sext(v & 0xffff_ffff, 32)
}
pub mod i64 {
    use super::*;
    use super::{i, r, u};
    proofs! {
        fn add [34] { r(insts::OP_ADD, |a, b| a.wrapping_add(b)) }
        fn sub [34] { r(insts::OP_SUB, |a, b| a.wrapping_sub(b)) }
        fn addw [34] { r(insts::OP_ADDW, |a, b| w(a.wrapping_add(b))) }
        fn subw [34] { r(insts::OP_SUBW, |a, b| w(a.wrapping_sub(b))) }
        fn and [34] { r(insts::OP_AND, |a, b| a & b) }
        fn or [34] { r(insts::OP_OR, |a, b| a | b) }
        fn xor [34] { r(insts::OP_XOR, |a, b| a ^ b) }
        fn slt [34] { r(insts::OP_SLT, |a, b| ((a as i64) < (b as i64)) as u64) }
        fn sltu [34] { r(insts::OP_SLTU, |a, b| (a < b) as u64) }
        fn sll [34] { r(insts::OP_SLL, |a, b| a << (b & 63)) }
        fn srl [34] { r(insts::OP_SRL, |a, b| a >> (b & 63)) }
        fn sra [34] { r(insts::OP_SRA, |a, b| ((a as i64) >> (b & 63)) as u64) }
        fn sllw [34] { r(insts::OP_SLLW, |a, b| w((a as u32 as u64) << (b & 31))) }
        fn srlw [34] { r(insts::OP_SRLW, |a, b| w((a as u32 as u64) >> (b & 31))) }
        fn sraw [34] { r(insts::OP_SRAW, |a, b| ((a as i32) >> (b & 31)) as i64 as u64) }
        fn addi [34] { i(insts::OP_ADDI, simm12(), |a, imm| a.wrapping_add(imm as i64 as u64)) }
        fn addiw [34] { i(insts::OP_ADDIW, simm12(), |a, imm| w(a.wrapping_add(imm as i64 as u64))) }
        fn andi [34] { i(insts::OP_ANDI, simm12(), |a, imm| a & (imm as i64 as u64)) }
        fn ori [34] { i(insts::OP_ORI, simm12(), |a, imm| a | (imm as i64 as u64)) }
        fn xori [34] { i(insts::OP_XORI, simm12(), |a, imm| a ^ (imm as i64 as u64)) }
        fn slti [34] { i(insts::OP_SLTI, simm12(), |a, imm| ((a as i64) < imm as i64) as u64) }
        fn sltiu [34] { i(insts::OP_SLTIU, simm12(), |a, imm| (a < imm as i64 as u64) as u64) }
        fn slli [34] { i(insts::OP_SLLI, shamt(6), |a, s| a << s) }
        fn srli [34] { i(insts::OP_SRLI, shamt(6), |a, s| a >> s) }
        fn srai [34] { i(insts::OP_SRAI, shamt(6), |a, s| ((a as i64) >> s) as u64) }
        fn slliw [34] { i(insts::OP_SLLIW, shamt(5), |a, s| w((a as u32 as u64) << s)) }
        fn srliw [34] { i(insts::OP_SRLIW, shamt(5), |a, s| w((a as u32 as u64) >> s)) }
        fn sraiw [34] { i(insts::OP_SRAIW, shamt(5), |a, s| ((a as i32) >> s) as i64 as u64) }
        fn lui [34] { u(insts::OP_LUI, |_, imm| imm as i64 as u64) }
        fn auipc [34] { u(insts::OP_AUIPC, |pc, imm| pc.wrapping_add(imm as i64 as u64)) }
        fn custom_load_imm [34] { u(insts::OP_CUSTOM_LOAD_IMM, |_, imm| imm as i64 as u64) }
        fn custom_load_uimm [34] { u(insts::OP_CUSTOM_LOAD_UIMM, |_, imm| imm as u32 as u64) }
    }
}

/// Zba, Zbb, Zbc, Zbs.
pub mod bitmanip {
    use super::*;
    use super::{i, r};
    fn u32z(a: u64) -> u64 {
        a & 0xffff_ffff
    }
    fn rotr64(a: u64, n: u64) -> u64 {
        let n = n & 63;
        if n == 0 { a } else { (a >> n) | (a << (64 - n)) }
    }
    fn rotr32(a: u64, n: u64) -> u64 {
        let n = (n & 31) as u32;
        let a = a as u32;
        w((if n == 0 { a } else { (a >> n) | (a << (32 - n)) }) as u64)
    }
    /// number of leading zeros by definition: position of the highest set bit
    fn clz(a: u64, bits: u32) -> u64 {
        let mut n = bits as u64;
        let mut j = 0;
        while j < bits {
            if a >> j & 1 == 1 {
                n = (bits - 1 - j) as u64;
            }
            j += 1;
        }
        n
    }
    fn ctz(a: u64, bits: u32) -> u64 {
        let mut n = bits as u64;
        let mut j = bits;
        while j > 0 {
            j -= 1;
            if a >> j & 1 == 1 {
                n = j as u64;
            }
        }
        n
    }
    fn pop(a: u64, bits: u32) -> u64 {
        let mut n = 0;
        let mut j = 0;
        while j < bits {
            n += a >> j & 1;
            j += 1;
        }
        n
    }
    fn orcb(a: u64) -> u64 {
        let mut v = 0;
        let mut j = 0;
        while j < 8 {
            if a >> (8 * j) & 0xff != 0 {
                v |= 0xff << (8 * j);
            }
            j += 1;
        }
        v
    }
    fn rev8(a: u64) -> u64 {
        let mut v = 0;
        let mut j = 0;
        while j < 8 {
            v |= (a >> (8 * j) & 0xff) << (56 - 8 * j);
            j += 1;
        }
        v
    }
    /// carry-less product, 128 bits
    fn clmul(a: u64, b: u64) -> u128 {
        let mut v: u128 = 0;
        let mut j = 0;
        while j < 64 {
            if b >> j & 1 == 1 {
                v ^= (a as u128) << j;
            }
            j += 1;
        }
        v
    }
    proofs! {
        fn adduw [34] { r(insts::OP_ADDUW, |a, b| u32z(a).wrapping_add(b)) }
        fn sh1add [34] { r(insts::OP_SH1ADD, |a, b| (a << 1).wrapping_add(b)) }
        fn sh2add [34] { r(insts::OP_SH2ADD, |a, b| (a << 2).wrapping_add(b)) }
        fn sh3add [34] { r(insts::OP_SH3ADD, |a, b| (a << 3).wrapping_add(b)) }
        fn sh1adduw [34] { r(insts::OP_SH1ADDUW, |a, b| (u32z(a) << 1).wrapping_add(b)) }
        fn sh2adduw [34] { r(insts::OP_SH2ADDUW, |a, b| (u32z(a) << 2).wrapping_add(b)) }
        fn sh3adduw [34] { r(insts::OP_SH3ADDUW, |a, b| (u32z(a) << 3).wrapping_add(b)) }
        fn slliuw [34] { i(insts::OP_SLLIUW, shamt(6), |a, s| u32z(a) << s) }
        fn andn [34] { r(insts::OP_ANDN, |a, b| a & !b) }
        fn orn [34] { r(insts::OP_ORN, |a, b| a | !b) }
        fn xnor [34] { r(insts::OP_XNOR, |a, b| !(a ^ b)) }
        fn min [34] { r(insts::OP_MIN, |a, b| if (a as i64) < (b as i64) { a } else { b }) }
        fn minu [34] { r(insts::OP_MINU, |a, b| if a < b { a } else { b }) }
        fn max [34] { r(insts::OP_MAX, |a, b| if (a as i64) < (b as i64) { b } else { a }) }
        fn maxu [34] { r(insts::OP_MAXU, |a, b| if a < b { b } else { a }) }
        fn sextb [34] { r(insts::OP_SEXTB, |a, _| a as i8 as i64 as u64) }
        fn sexth [34] { r(insts::OP_SEXTH, |a, _| a as i16 as i64 as u64) }
        fn zexth [34] { r(insts::OP_ZEXTH, |a, _| a & 0xffff) }
        fn clz_ [66] { r(insts::OP_CLZ, |a, _| clz(a, 64)) }
        fn clzw [66] { r(insts::OP_CLZW, |a, _| clz(a, 32)) }
        fn ctz_ [66] { r(insts::OP_CTZ, |a, _| ctz(a, 64)) }
        fn ctzw [66] { r(insts::OP_CTZW, |a, _| ctz(a, 32)) }
        fn cpop [66] { r(insts::OP_CPOP, |a, _| pop(a, 64)) }
        fn cpopw [66] { r(insts::OP_CPOPW, |a, _| pop(a, 32)) }
        fn orcb_ [34] { r(insts::OP_ORCB, |a, _| orcb(a)) }
        fn rev8_ [34] { r(insts::OP_REV8, |a, _| rev8(a)) }
        fn rol [34] { r(insts::OP_ROL, |a, b| rotr64(a, 64u64.wrapping_sub(b))) }
        fn ror [34] { r(insts::OP_ROR, |a, b| rotr64(a, b)) }
        fn rolw [34] { r(insts::OP_ROLW, |a, b| rotr32(a, 32u64.wrapping_sub(b))) }
        fn rorw [34] { r(insts::OP_RORW, |a, b| rotr32(a, b)) }
        fn rori [34] { i(insts::OP_RORI, shamt(6), |a, s| rotr64(a, s as u64)) }
        fn roriw [34] { i(insts::OP_RORIW, shamt(5), |a, s| rotr32(a, s as u64)) }
        fn bclr [34] { r(insts::OP_BCLR, |a, b| a & !(1 << (b & 63))) }
        fn bset [34] { r(insts::OP_BSET, |a, b| a | (1 << (b & 63))) }
        fn binv [34] { r(insts::OP_BINV, |a, b| a ^ (1 << (b & 63))) }
        fn bext [34] { r(insts::OP_BEXT, |a, b| a >> (b & 63) & 1) }
        fn bclri [34] { i(insts::OP_BCLRI, shamt(6), |a, s| a & !(1 << s)) }
        fn bseti [34] { i(insts::OP_BSETI, shamt(6), |a, s| a | (1 << s)) }
        fn binvi [34] { i(insts::OP_BINVI, shamt(6), |a, s| a ^ (1 << s)) }
        fn bexti [34] { i(insts::OP_BEXTI, shamt(6), |a, s| a >> s & 1) }
        fn clmul_ [66] { r(insts::OP_CLMUL, |a, b| clmul(a, b) as u64) }
        fn clmulh [66] { r(insts::OP_CLMULH, |a, b| (clmul(a, b) >> 64) as u64) }
        fn clmulr [66] { r(insts::OP_CLMULR, |a, b| (clmul(a, b) >> 63) as u64) }
    }
}
