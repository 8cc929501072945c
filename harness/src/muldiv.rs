//! Contracts of the M-extension handlers and of the fused wide multiply/divide handlers.
//! Two 64-bit multipliers cannot be related by SAT, nor by SMT through a register-file multiplexer, so
//! each obligation fixes the register operands (one harness per aliasing pattern, plus a sweep that puts
//! every index in every slot) while the operand *values*, the pc and the rest of the register file are
//! fully symbolic; these obligations are discharged by the SMT back end named on the harness.
use crate::alu::with_len;
use crate::ghost::*;
use crate::nd;
use ckb_vm::instructions::*;
use ckb_vm::machine::CoreMachine;

/// (rd, rs1, rs2, rd of the low/remainder half in fused forms)
type P = (usize, usize, usize, usize);
const DIST: P = (3, 4, 5, 6);
const D1: P = (7, 7, 12, 13);
const D2: P = (12, 26, 12, 9);
const ALL: P = (31, 31, 31, 30);
const S12: P = (15, 16, 16, 17);
const X0: P = (0, 18, 19, 0);
const Z1: P = (20, 0, 21, 22);
const Z2: P = (23, 24, 0, 25);

fn machine(regs: &mut [u64; 32], pc: u64) -> Gm<'_> {
    Gm {
        regs, pc, next: 0, mem: SpecMem { size: 0, log: [NOEV; 2], n: 0, bad: false, lr: 0, fixed: None },
        isa: 7, ver: 2, ecalls: 0, ebreaks: 0,
    }
}

#[inline(always)]
fn r(op: u16, p: P, spec: impl Fn(u64, u64) -> u64) {
    let (rd, rs1, rs2, _) = p;
    let a = nd::u64();
    let b = nd::u64();
    let other = nd::u64();
    let pc0 = nd::u64();
    let mut regs = [other; 32];
    regs[rs2] = b;
    regs[rs1] = a;
    regs[0] = 0;
    let pre = regs;
    let mut m = machine(&mut regs, pc0);
    let inst = with_len(Rtype::new(op, rd, rs1, rs2).0, 4);
    let res = run(op, inst, &mut m);
    ensure!(res.is_ok(), "a multiply/divide instruction always succeeds");
    let want = spec(pre[rs1], pre[rs2]);
    ensure!(rd == 0 || m.registers()[rd] == want, "rd holds the ISA-defined product, quotient or remainder");
    let mut k = 0;
    while k < 32 {
        ensure!((k == rd && k != 0) || m.registers()[k] == pre[k], "every other register is unchanged; x0 is zero");
        k += 1;
    }
    ensure!(m.pc == pc0.wrapping_add(4), "pc advances by the instruction length");
    ensure!(m.mem.n == 0 && !m.mem.bad, "no memory access");
    std::mem::forget(res);
    reach!(a > 1 && b > 1, "operands are unconstrained");
}
/// fused pair: rd gets `hi`, rs3 gets `lo` (rd written first)
#[inline(always)]
fn r2(op: u16, p: P, hi: impl Fn(u64, u64) -> u64, lo: impl Fn(u64, u64) -> u64) {
    let (rd, rs1, rs2, rd2) = p;
    let a = nd::u64();
    let b = nd::u64();
    let other = nd::u64();
    let pc0 = nd::u64();
    let mut regs = [other; 32];
    regs[rs2] = b;
    regs[rs1] = a;
    regs[0] = 0;
    let pre = regs;
    let mut m = machine(&mut regs, pc0);
    let inst = set_instruction_length_n(R4type::new(op, rd, rs1, rs2, rd2).0, 8);
    let res = run(op, inst, &mut m);
    ensure!(res.is_ok(), "a multiply/divide instruction always succeeds");
    ensure!(rd == 0 || rd == rd2 || m.registers()[rd] == hi(pre[rs1], pre[rs2]), "rd holds the high half or the quotient");
    ensure!(rd2 == 0 || m.registers()[rd2] == lo(pre[rs1], pre[rs2]), "the second destination holds the low half or the remainder");
    let mut k = 0;
    while k < 32 {
        ensure!(((k == rd || k == rd2) && k != 0) || m.registers()[k] == pre[k], "every other register is unchanged; x0 is zero");
        k += 1;
    }
    ensure!(m.pc == pc0.wrapping_add(8), "pc advances by the length of the pair");
    ensure!(m.mem.n == 0 && !m.mem.bad, "no memory access");
    std::mem::forget(res);
    reach!(a > 1 && b > 1, "operands are unconstrained");
}
fn w(v: u64) -> u64 {
    sext(v & 0xffff_ffff, 32)
}
pub fn mul(a: u64, b: u64) -> u64 {
    a.wrapping_mul(b)
}
pub fn mulh(a: u64, b: u64) -> u64 {
    ((a as i64 as i128).wrapping_mul(b as i64 as i128) >> 64) as u64
}
pub fn mulhu(a: u64, b: u64) -> u64 {
    ((a as u128).wrapping_mul(b as u128) >> 64) as u64
}
pub fn mulhsu(a: u64, b: u64) -> u64 {
    ((a as i64 as i128).wrapping_mul(b as u128 as i128) >> 64) as u64
}
pub fn mulw(a: u64, b: u64) -> u64 {
    w((a as u32 as u64).wrapping_mul(b as u32 as u64))
}
pub fn div(a: u64, b: u64) -> u64 {
    if b == 0 { u64::MAX } else { (a as i64).wrapping_div(b as i64) as u64 }
}
pub fn divu(a: u64, b: u64) -> u64 {
    if b == 0 { u64::MAX } else { a / b }
}
pub fn rem(a: u64, b: u64) -> u64 {
    if b == 0 { a } else { (a as i64).wrapping_rem(b as i64) as u64 }
}
pub fn remu(a: u64, b: u64) -> u64 {
    if b == 0 { a } else { a % b }
}
pub fn divw(a: u64, b: u64) -> u64 {
    if b as u32 == 0 { u64::MAX } else { w((a as i32 as i64).wrapping_div(b as i32 as i64) as u64) }
}
pub fn divuw(a: u64, b: u64) -> u64 {
    if b as u32 == 0 { u64::MAX } else { w((a as u32 as u64) / (b as u32 as u64)) }
}
pub fn remw(a: u64, b: u64) -> u64 {
    if b as u32 == 0 { w(a) } else { w((a as i32 as i64).wrapping_rem(b as i32 as i64) as u64) }
}
pub fn remuw(a: u64, b: u64) -> u64 {
    if b as u32 == 0 { w(a) } else { w((a as u32 as u64) % (b as u32 as u64)) }
}
macro_rules! ops {
    ($( $md:ident $op:ident $solver:ident $call:expr; )*) => { $( pub mod $md {
        use super::*;
        #[inline(always)]
        fn go(p: P) { let f: fn(u16, P) = $call; f(insts::$op, p) }
        proofs! {
            #[cfg_attr(kani, kani::solver($solver))] fn distinct [34] { go(DIST) }
            #[cfg_attr(kani, kani::solver($solver))] fn rd_is_rs1 [34] { go(D1) }
            #[cfg_attr(kani, kani::solver($solver))] fn rd_is_rs2 [34] { go(D2) }
            #[cfg_attr(kani, kani::solver($solver))] fn all_same [34] { go(ALL) }
            #[cfg_attr(kani, kani::solver($solver))] fn rs1_is_rs2 [34] { go(S12) }
            #[cfg_attr(kani, kani::solver($solver))] fn rd_is_x0 [34] { go(X0) }
            #[cfg_attr(kani, kani::solver($solver))] fn rs1_is_x0 [34] { go(Z1) }
            #[cfg_attr(kani, kani::solver($solver))] fn rs2_is_x0 [34] { go(Z2) }
        }
    } )*
    #[cfg(not(kani))]
    pub const LISTS: &[&[(&str, fn())]] = &[ $( $md::LIST, )* ];
    };
}
ops! {
    m_mul OP_MUL z3 |o, p| r(o, p, mul);
    m_mulh OP_MULH z3 |o, p| r(o, p, mulh);
    m_mulhu OP_MULHU z3 |o, p| r(o, p, mulhu);
    m_mulhsu OP_MULHSU z3 |o, p| r(o, p, mulhsu);
    m_mulw OP_MULW z3 |o, p| r(o, p, mulw);
    m_div OP_DIV z3 |o, p| r(o, p, div);
    m_divu OP_DIVU z3 |o, p| r(o, p, divu);
    m_rem OP_REM z3 |o, p| r(o, p, rem);
    m_remu OP_REMU z3 |o, p| r(o, p, remu);
    m_divw OP_DIVW z3 |o, p| r(o, p, divw);
    m_divuw OP_DIVUW z3 |o, p| r(o, p, divuw);
    m_remw OP_REMW z3 |o, p| r(o, p, remw);
    m_remuw OP_REMUW z3 |o, p| r(o, p, remuw);
    f_wide_mul OP_WIDE_MUL z3 |o, p| r2(o, p, mulh, mul);
    f_wide_mulu OP_WIDE_MULU z3 |o, p| r2(o, p, mulhu, mul);
    f_wide_mulsu OP_WIDE_MULSU z3 |o, p| r2(o, p, mulhsu, mul);
    f_wide_div OP_WIDE_DIV z3 |o, p| r2(o, p, div, rem);
    f_wide_divu OP_WIDE_DIVU z3 |o, p| r2(o, p, divu, remu);
}
