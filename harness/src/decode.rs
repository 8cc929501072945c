//! Contracts of the instruction-word decoders (RV64): for every 32-bit word and every version, a factory
//! returns exactly what the ISA's encoding tables prescribe, and nothing for every other word.
//! The tables below are transcribed from the RISC-V opcode listings (mask/match pairs), not from the code.
use crate::nd;
use ckb_vm::instructions::insts::*;
use ckb_vm::instructions::*;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum F {
    R,   // rd, rs1, rs2
    R1,  // rd, rs1 (unary)
    I,   // rd, rs1, imm12
    H6,  // rd, rs1, shamt6
    H5,  // rd, rs1, shamt5
    S,   // rs1, rs2, imm12
    B,   // rs1, rs2, imm13
    U,   // rd, imm32
    J,   // rd, imm21
    N,   // nothing
}
pub struct E {
    pub op0: u16,
    pub op1: u16,
    pub mask: u32,
    pub mat: u32,
    pub f: F,
}
const fn e(op: u16, mat: u32, mask: u32, f: F) -> E {
    E { op0: op, op1: op, mask, mat, f }
}
const fn ev(op0: u16, op1: u16, mat: u32, mask: u32, f: F) -> E {
    E { op0, op1, mask, mat, f }
}
const M7: u32 = 0x7f;
const M3: u32 = 0x707f;
const MS6: u32 = 0xfc00_707f;
const MR: u32 = 0xfe00_707f;
const M1: u32 = 0xfff0_707f;
const MA: u32 = 0xf800_707f;
const ML: u32 = 0xf9f0_707f;
const ALL: u32 = 0xffff_ffff;

pub const TI: &[E] = &[
    e(OP_LUI, 0x37, M7, F::U), e(OP_AUIPC, 0x17, M7, F::U), e(OP_JAL, 0x6f, M7, F::J),
    ev(OP_JALR_VERSION0, OP_JALR_VERSION1, 0x67, M3, F::I),
    ev(OP_LB_VERSION0, OP_LB_VERSION1, 0x03, M3, F::I), ev(OP_LH_VERSION0, OP_LH_VERSION1, 0x1003, M3, F::I),
    ev(OP_LW_VERSION0, OP_LW_VERSION1, 0x2003, M3, F::I), ev(OP_LD_VERSION0, OP_LD_VERSION1, 0x3003, M3, F::I),
    ev(OP_LBU_VERSION0, OP_LBU_VERSION1, 0x4003, M3, F::I), ev(OP_LHU_VERSION0, OP_LHU_VERSION1, 0x5003, M3, F::I),
    ev(OP_LWU_VERSION0, OP_LWU_VERSION1, 0x6003, M3, F::I),
    e(OP_ADDI, 0x13, M3, F::I), e(OP_SLTI, 0x2013, M3, F::I), e(OP_SLTIU, 0x3013, M3, F::I),
    e(OP_XORI, 0x4013, M3, F::I), e(OP_ORI, 0x6013, M3, F::I), e(OP_ANDI, 0x7013, M3, F::I),
    e(OP_SLLI, 0x1013, MS6, F::H6), e(OP_SRLI, 0x5013, MS6, F::H6), e(OP_SRAI, 0x4000_5013, MS6, F::H6),
    e(OP_BEQ, 0x63, M3, F::B), e(OP_BNE, 0x1063, M3, F::B), e(OP_BLT, 0x4063, M3, F::B),
    e(OP_BGE, 0x5063, M3, F::B), e(OP_BLTU, 0x6063, M3, F::B), e(OP_BGEU, 0x7063, M3, F::B),
    e(OP_SB, 0x23, M3, F::S), e(OP_SH, 0x1023, M3, F::S), e(OP_SW, 0x2023, M3, F::S), e(OP_SD, 0x3023, M3, F::S),
    e(OP_ADD, 0x33, MR, F::R), e(OP_SUB, 0x4000_0033, MR, F::R), e(OP_SLL, 0x1033, MR, F::R),
    e(OP_SLT, 0x2033, MR, F::R), e(OP_SLTU, 0x3033, MR, F::R), e(OP_XOR, 0x4033, MR, F::R),
    e(OP_SRL, 0x5033, MR, F::R), e(OP_SRA, 0x4000_5033, MR, F::R), e(OP_OR, 0x6033, MR, F::R), e(OP_AND, 0x7033, MR, F::R),
    e(OP_FENCEI, 0x100f, ALL, F::N), e(OP_FENCE, 0x0f, 0x000f_ffff, F::N),
    e(OP_ECALL, 0x73, ALL, F::N), e(OP_EBREAK, 0x0010_0073, ALL, F::N),
    e(OP_ADDIW, 0x1b, M3, F::I), e(OP_SLLIW, 0x101b, MR, F::H5), e(OP_SRLIW, 0x501b, MR, F::H5), e(OP_SRAIW, 0x4000_501b, MR, F::H5),
    e(OP_ADDW, 0x3b, MR, F::R), e(OP_SUBW, 0x4000_003b, MR, F::R), e(OP_SLLW, 0x103b, MR, F::R),
    e(OP_SRLW, 0x503b, MR, F::R), e(OP_SRAW, 0x4000_503b, MR, F::R),
];
pub const TM: &[E] = &[
    e(OP_MUL, 0x0200_0033, MR, F::R), e(OP_MULH, 0x0200_1033, MR, F::R), e(OP_MULHSU, 0x0200_2033, MR, F::R),
    e(OP_MULHU, 0x0200_3033, MR, F::R), e(OP_DIV, 0x0200_4033, MR, F::R), e(OP_DIVU, 0x0200_5033, MR, F::R),
    e(OP_REM, 0x0200_6033, MR, F::R), e(OP_REMU, 0x0200_7033, MR, F::R),
    e(OP_MULW, 0x0200_003b, MR, F::R), e(OP_DIVW, 0x0200_403b, MR, F::R), e(OP_DIVUW, 0x0200_503b, MR, F::R),
    e(OP_REMW, 0x0200_603b, MR, F::R), e(OP_REMUW, 0x0200_703b, MR, F::R),
];
pub const TA: &[E] = &[
    e(OP_LR_W, 0x1000_202f, ML, F::R1), e(OP_SC_W, 0x1800_202f, MA, F::R), e(OP_AMOSWAP_W, 0x0800_202f, MA, F::R),
    e(OP_AMOADD_W, 0x202f, MA, F::R), e(OP_AMOXOR_W, 0x2000_202f, MA, F::R), e(OP_AMOAND_W, 0x6000_202f, MA, F::R),
    e(OP_AMOOR_W, 0x4000_202f, MA, F::R), e(OP_AMOMIN_W, 0x8000_202f, MA, F::R), e(OP_AMOMAX_W, 0xa000_202f, MA, F::R),
    e(OP_AMOMINU_W, 0xc000_202f, MA, F::R), e(OP_AMOMAXU_W, 0xe000_202f, MA, F::R),
    e(OP_LR_D, 0x1000_302f, ML, F::R1), e(OP_SC_D, 0x1800_302f, MA, F::R), e(OP_AMOSWAP_D, 0x0800_302f, MA, F::R),
    e(OP_AMOADD_D, 0x302f, MA, F::R), e(OP_AMOXOR_D, 0x2000_302f, MA, F::R), e(OP_AMOAND_D, 0x6000_302f, MA, F::R),
    e(OP_AMOOR_D, 0x4000_302f, MA, F::R), e(OP_AMOMIN_D, 0x8000_302f, MA, F::R), e(OP_AMOMAX_D, 0xa000_302f, MA, F::R),
    e(OP_AMOMINU_D, 0xc000_302f, MA, F::R), e(OP_AMOMAXU_D, 0xe000_302f, MA, F::R),
];
pub const TB: &[E] = &[
    e(OP_ADDUW, 0x0800_003b, MR, F::R), e(OP_ANDN, 0x4000_7033, MR, F::R), e(OP_BCLR, 0x4800_1033, MR, F::R),
    e(OP_BCLRI, 0x4800_1013, MS6, F::H6), e(OP_BEXT, 0x4800_5033, MR, F::R), e(OP_BEXTI, 0x4800_5013, MS6, F::H6),
    e(OP_BINV, 0x6800_1033, MR, F::R), e(OP_BINVI, 0x6800_1013, MS6, F::H6), e(OP_BSET, 0x2800_1033, MR, F::R),
    e(OP_BSETI, 0x2800_1013, MS6, F::H6), e(OP_CLMUL, 0x0a00_1033, MR, F::R), e(OP_CLMULH, 0x0a00_3033, MR, F::R),
    e(OP_CLMULR, 0x0a00_2033, MR, F::R), e(OP_CLZ, 0x6000_1013, M1, F::R1), e(OP_CLZW, 0x6000_101b, M1, F::R1),
    e(OP_CPOP, 0x6020_1013, M1, F::R1), e(OP_CPOPW, 0x6020_101b, M1, F::R1), e(OP_CTZ, 0x6010_1013, M1, F::R1),
    e(OP_CTZW, 0x6010_101b, M1, F::R1), e(OP_MAX, 0x0a00_6033, MR, F::R), e(OP_MAXU, 0x0a00_7033, MR, F::R),
    e(OP_MIN, 0x0a00_4033, MR, F::R), e(OP_MINU, 0x0a00_5033, MR, F::R), e(OP_ORCB, 0x2870_5013, M1, F::R1),
    e(OP_ORN, 0x4000_6033, MR, F::R), e(OP_REV8, 0x6b80_5013, M1, F::R1), e(OP_ROL, 0x6000_1033, MR, F::R),
    e(OP_ROLW, 0x6000_103b, MR, F::R), e(OP_ROR, 0x6000_5033, MR, F::R), e(OP_RORI, 0x6000_5013, MS6, F::H6),
    e(OP_RORIW, 0x6000_501b, MR, F::H5), e(OP_RORW, 0x6000_503b, MR, F::R), e(OP_SEXTB, 0x6040_1013, M1, F::R1),
    e(OP_SEXTH, 0x6050_1013, M1, F::R1), e(OP_SH1ADD, 0x2000_2033, MR, F::R), e(OP_SH1ADDUW, 0x2000_203b, MR, F::R),
    e(OP_SH2ADD, 0x2000_4033, MR, F::R), e(OP_SH2ADDUW, 0x2000_403b, MR, F::R), e(OP_SH3ADD, 0x2000_6033, MR, F::R),
    e(OP_SH3ADDUW, 0x2000_603b, MR, F::R), e(OP_SLLIUW, 0x0800_101b, MS6, F::H6), e(OP_XNOR, 0x4000_4033, MR, F::R),
    e(OP_ZEXTH, 0x0800_403b, M1, F::R1),
];

/// what a word means
#[derive(Clone, Copy)]
pub struct X {
    pub some: bool,
    pub op: u16,
    pub f: F,
    pub rd: usize,
    pub rs1: usize,
    pub rs2: usize,
    pub imm: i32,
}
pub const NONE: X = X { some: false, op: 0, f: F::N, rd: 0, rs1: 0, rs2: 0, imm: 0 };

pub fn fields(w: u32, op: u16, f: F) -> X {
    let s = w as i32;
    let imm = match f {
        F::I => s >> 20,
        F::H6 => ((w >> 20) & 0x3f) as i32,
        F::H5 => ((w >> 20) & 0x1f) as i32,
        F::S => (s >> 25) * 32 + ((w >> 7) & 0x1f) as i32,
        F::B => (s >> 31) * 4096 + ((w >> 7) & 1) as i32 * 2048 + ((w >> 25) & 0x3f) as i32 * 32 + ((w >> 8) & 0xf) as i32 * 2,
        F::U => (w & 0xffff_f000) as i32,
        F::J => (s >> 31) * (1 << 20) + ((w >> 12) & 0xff) as i32 * 4096 + ((w >> 20) & 1) as i32 * 2048 + ((w >> 21) & 0x3ff) as i32 * 2,
        _ => 0,
    };
    X { some: true, op, f, rd: (w >> 7 & 31) as usize, rs1: (w >> 15 & 31) as usize, rs2: (w >> 20 & 31) as usize, imm }
}
/// the table's meaning of a word
#[inline(always)]
pub fn lookup(t: &[E], w: u32, version: u32) -> X {
    let mut x = NONE;
    let mut i = 0;
    while i < t.len() {
        if w & t[i].mask == t[i].mat {
            let op = if version >= 1 { t[i].op1 } else { t[i].op0 };
            x = X { some: true, op, f: t[i].f, ..NONE };
        }
        i += 1;
    }
    if x.some { fields(w, x.op, x.f) } else { NONE }
}
/// `got` is the internal form of `x`, with the given length
#[inline(always)]
pub fn same(got: u64, x: &X, len: u8) -> bool {
    extract_opcode(got) == x.op
        && instruction_length(got) == len
        && match x.f {
            F::R => { let i = Rtype(got); i.rd() == x.rd && i.rs1() == x.rs1 && i.rs2() == x.rs2 }
            F::R1 => { let i = Rtype(got); i.rd() == x.rd && i.rs1() == x.rs1 }
            F::I | F::H6 | F::H5 => { let i = Itype(got); i.rd() == x.rd && i.rs1() == x.rs1 && i.immediate_s() == x.imm }
            F::S | F::B => { let i = Stype(got); i.rs1() == x.rs1 && i.rs2() == x.rs2 && i.immediate_s() == x.imm }
            F::U | F::J => { let i = Utype(got); i.rd() == x.rd && i.immediate_s() == x.imm }
            F::N => true,
        }
}
#[inline(always)]
fn check(f: impl Fn(u32, u32) -> Option<u64>, t: &[E]) {
    let w = nd::u32();
    let version = nd::u32();
    let got = f(w, version);
    let want = lookup(t, w, version);
    ensure!(got.is_some() == want.some, "a word decodes iff the ISA's table defines it");
    if let Some(g) = got {
        ensure!(same(g, &want, 4), "the decoded operation, registers, immediate and length are those of the encoding");
    }
    reach!(got.is_some(), "decodes");
    reach!(got.is_none(), "refused");
}

/// the word decoders by number
#[cfg(not(kani))]
fn word(w: u32, version: u32, k: u8) -> Option<u64> {
    match k {
        0 => rvc::factory::<u64>(w, version),
        1 => i::factory::<u64>(w, version),
        2 => m::factory::<u64>(w, version),
        3 => b::factory::<u64>(w, version),
        _ => a::factory::<u64>(w, version),
    }
}
/// contract: disjoint sets of words, some words known to none
#[cfg(kani)]
fn word(w: u32, version: u32, k: u8) -> Option<u64> {
    let class = if w & 3 != 3 { 0 } else { (w >> 8 & 7) as u8 };
    if class == k { Some(w as u64 | (k as u64) << 40 | (version as u64 & 7) << 48) } else { None }
}
#[cfg(kani)]
mod stubs {
    use super::word;
    use ckb_vm::instructions::Register;
    pub fn stub_rvc<R: Register>(w: u32, v: u32) -> Option<u64> { word(w, v, 0) }
    pub fn stub_i<R: Register>(w: u32, v: u32) -> Option<u64> { word(w, v, 1) }
    pub fn stub_m<R: Register>(w: u32, v: u32) -> Option<u64> { word(w, v, 2) }
    pub fn stub_b<R: Register>(w: u32, v: u32) -> Option<u64> { word(w, v, 3) }
    pub fn stub_a<R: Register>(w: u32, v: u32) -> Option<u64> { word(w, v, 4) }
}
#[cfg(kani)]
use stubs::*;
/// C extension (RV64C), transcribed from the ISA manual's instruction listing.
pub fn rvc(w: u32, version: u32) -> X {
    let h = w;
    let b = |i: u32| (h >> i) & 1;
    let fl = |lo: u32, n: u32| (h >> lo) & ((1 << n) - 1);
    let sgn = |v: u32, bits: u32| ((v << (32 - bits)) as i32) >> (32 - bits);
    let rd = fl(7, 5) as usize;
    let rs2 = fl(2, 5) as usize;
    let rdp = fl(7, 3) as usize + 8;
    let rs2p = fl(2, 3) as usize + 8;
    let imm6 = sgn(b(12) << 5 | fl(2, 5), 6);
    let uimm6 = (b(12) << 5 | fl(2, 5)) as i32;
    let mk = |op: u16, f: F, rd: usize, rs1: usize, rs2: usize, imm: i32| X { some: true, op, f, rd, rs1, rs2, imm };
    let nop = mk(OP_ADDI, F::I, 0, 0, 0, 0);
    let v1 = version >= 1;
    let hint = if v1 { nop } else { NONE };
    let lw = if v1 { OP_LW_VERSION1 } else { OP_LW_VERSION0 };
    let ld = if v1 { OP_LD_VERSION1 } else { OP_LD_VERSION0 };
    let jalr = if v1 { OP_JALR_VERSION1 } else { OP_JALR_VERSION0 };
    let uw = (b(5) << 6 | fl(10, 3) << 3 | b(6) << 2) as i32;
    let ud = (fl(5, 2) << 6 | fl(10, 3) << 3) as i32;
    let j = sgn(b(12) << 11 | b(8) << 10 | fl(9, 2) << 8 | b(6) << 7 | b(7) << 6 | b(2) << 5 | b(11) << 4 | fl(3, 3) << 1, 12);
    let br = sgn(b(12) << 8 | fl(5, 2) << 6 | b(2) << 5 | fl(10, 2) << 3 | fl(3, 2) << 1, 9);
    match (h & 3, h >> 13 & 7) {
        (0, 0) => {
            let n = (fl(7, 4) << 6 | fl(11, 2) << 4 | b(5) << 3 | b(6) << 2) as i32;
            if n == 0 { NONE } else { mk(OP_ADDI, F::I, rs2p, 2, 0, n) }
        }
        (0, 2) => mk(lw, F::I, rs2p, rdp, 0, uw),
        (0, 3) => mk(ld, F::I, rs2p, rdp, 0, ud),
        (0, 6) => mk(OP_SW, F::S, 0, rdp, rs2p, uw),
        (0, 7) => mk(OP_SD, F::S, 0, rdp, rs2p, ud),
        (1, 0) => {
            if rd == 0 && imm6 == 0 { nop } else if rd == 0 || imm6 == 0 { hint } else { mk(OP_ADDI, F::I, rd, rd, 0, imm6) }
        }
        (1, 1) => if rd == 0 { NONE } else { mk(OP_ADDIW, F::I, rd, rd, 0, imm6) },
        (1, 2) => if rd == 0 { hint } else { mk(OP_ADDI, F::I, rd, 0, 0, imm6) },
        (1, 3) => {
            if imm6 == 0 {
                NONE
            } else if rd == 2 {
                mk(OP_ADDI, F::I, 2, 2, 0, sgn(b(12) << 9 | fl(3, 2) << 7 | b(5) << 6 | b(2) << 5 | b(6) << 4, 10))
            } else if rd == 0 {
                hint
            } else {
                mk(OP_LUI, F::U, rd, 0, 0, imm6 << 12)
            }
        }
        (1, 4) => match (fl(10, 2), b(12), fl(5, 2)) {
            // a shift by zero is accepted as a no-op
            (0, _, _) => if uimm6 == 0 { nop } else { mk(OP_SRLI, F::H6, rdp, rdp, 0, uimm6) },
            (1, _, _) => if uimm6 == 0 { nop } else { mk(OP_SRAI, F::H6, rdp, rdp, 0, uimm6) },
            (2, _, _) => mk(OP_ANDI, F::I, rdp, rdp, 0, imm6),
            (3, 0, 0) => mk(OP_SUB, F::R, rdp, rdp, rs2p, 0),
            (3, 0, 1) => mk(OP_XOR, F::R, rdp, rdp, rs2p, 0),
            (3, 0, 2) => mk(OP_OR, F::R, rdp, rdp, rs2p, 0),
            (3, 0, 3) => mk(OP_AND, F::R, rdp, rdp, rs2p, 0),
            (3, 1, 0) => mk(OP_SUBW, F::R, rdp, rdp, rs2p, 0),
            (3, 1, 1) => mk(OP_ADDW, F::R, rdp, rdp, rs2p, 0),
            _ => NONE,
        },
        (1, 5) => mk(OP_JAL, F::J, 0, 0, 0, j),
        (1, 6) => mk(OP_BEQ, F::B, 0, rdp, 0, br),
        (1, 7) => mk(OP_BNE, F::B, 0, rdp, 0, br),
        (2, 0) => if rd == 0 || uimm6 == 0 { hint } else { mk(OP_SLLI, F::H6, rd, rd, 0, uimm6) },
        (2, 2) => if rd == 0 { NONE } else { mk(lw, F::I, rd, 2, 0, (fl(2, 2) << 6 | b(12) << 5 | fl(4, 3) << 2) as i32) },
        (2, 3) => if rd == 0 { NONE } else { mk(ld, F::I, rd, 2, 0, (fl(2, 3) << 6 | b(12) << 5 | fl(5, 2) << 3) as i32) },
        (2, 4) => match (b(12), rd, rs2) {
            (0, 0, 0) => NONE,
            (0, _, 0) => mk(jalr, F::I, 0, rd, 0, 0),
            (0, 0, _) => hint,
            (0, _, _) => mk(OP_ADD, F::R, rd, 0, rs2, 0),
            (_, 0, 0) => mk(OP_EBREAK, F::N, 0, 0, 0, 0),
            (_, _, 0) => mk(jalr, F::I, 1, rd, 0, 0),
            (_, 0, _) => hint,
            (_, _, _) => mk(OP_ADD, F::R, rd, rd, rs2, 0),
        },
        (2, 6) => mk(OP_SW, F::S, 0, 2, rs2, (fl(7, 2) << 6 | fl(9, 4) << 2) as i32),
        (2, 7) => mk(OP_SD, F::S, 0, 2, rs2, (fl(7, 3) << 6 | fl(10, 3) << 3) as i32),
        _ => NONE,
    }
}
pub mod w {
    use super::*;
    use super::check;
    proofs! {
        fn base [64] { check(i::factory::<u64>, TI) }
        fn mul [64] { check(m::factory::<u64>, TM) }
        fn atomic [64] { check(a::factory::<u64>, TA) }
        fn bitmanip [64] { check(b::factory::<u64>, TB) }
        // the word decoders are replaced by their contract: they know disjoint sets of words
        #[cfg_attr(kani, kani::stub(ckb_vm::instructions::rvc::factory, stub_rvc))]
        #[cfg_attr(kani, kani::stub(ckb_vm::instructions::i::factory, stub_i))]
        #[cfg_attr(kani, kani::stub(ckb_vm::instructions::m::factory, stub_m))]
        #[cfg_attr(kani, kani::stub(ckb_vm::instructions::b::factory, stub_b))]
        #[cfg_attr(kani, kani::stub(ckb_vm::instructions::a::factory, stub_a))]
        fn gating [64] {
            // which words a configured decoder knows
            let (isa, version) = (nd::u8(), nd::u32());
            let wd = nd::u32();
            let mut d = ckb_vm::decoder::build_decoder::<u64>(isa, version);
            let p = 0x1000;
            let mut m = crate::fetch::Code { size: 0x10000, at: [p, p + 2, p, p], h: [wd as u16, (wd >> 16) as u16, 0, 0], wall: u64::MAX };
            let r = d.decode_raw(&mut m, p);
            let bits = if wd & 3 == 3 { wd } else { wd & 0xffff };
            let (b, a) = (isa & ckb_vm::ISA_B != 0, isa & ckb_vm::ISA_A != 0);
            let want = word(bits, version, 0).or(word(bits, version, 1)).or(word(bits, version, 2))
                .or(if b { word(bits, version, 3) } else { None }).or(if a { word(bits, version, 4) } else { None });
            ensure!(r.as_ref().ok().copied() == want, "a word decodes iff an enabled extension defines it, to that extension's instruction");
            reach!(r.is_ok() && isa == 0, "a base instruction");
            reach!(r.is_err() && isa & ckb_vm::ISA_A == 0 && word(bits, version, 4).is_some(), "an instruction of a disabled extension");
            std::mem::forget(r);
            std::mem::forget(d);
        }
        fn compressed [64] {
            let h = nd::u16() as u32;
            let version = nd::u32();
            let got = ckb_vm::instructions::rvc::factory::<u64>(h, version);
            let want = rvc(h, version);
            ensure!(got.is_some() == want.some, "a halfword decodes iff the C extension's listing defines it");
            if let Some(g) = got {
                ensure!(same(g, &want, 2), "the expanded operation, registers, immediate and length are those of the encoding");
            }
            reach!(got.is_some(), "decodes");
            reach!(got.is_none(), "refused");
        }
        fn compressed_leaves_32bit_words [64] {
            let w = nd::u32();
            nd::assume(w & 3 == 3);
            let got = ckb_vm::instructions::rvc::factory::<u64>(w, nd::u32());
            ensure!(got.is_none(), "a 32-bit encoding is not a compressed instruction");
            reach!(w >> 16 != 0, "a word");
        }
    }
}
