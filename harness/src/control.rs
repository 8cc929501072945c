//! Contracts of the control-transfer, environment and fence handlers.
use crate::alu::{sym, with_len, Sym};
use crate::ghost::*;
use crate::nd;
use ckb_vm::instructions::*;
use ckb_vm::machine::CoreMachine;
use ckb_vm::Error;

#[inline(always)]
fn regs_ok(m: &Gm, s: &Sym, wrote: bool, value: u64) -> bool {
    let want = if s.k == 0 { 0 } else if wrote && s.k == s.rd { value } else { s.old };
    m.registers()[s.k] == want
}
#[inline(always)]
fn quiet(m: &Gm, lr: u64) -> bool {
    m.mem.n == 0 && !m.mem.bad && m.mem.lr == lr && m.ecalls == 0 && m.ebreaks == 0
}
/// 13-bit branch offsets, 21-bit jump offsets: any even value of the width
fn offset(bits: u32) -> i32 {
    let v = nd::u32() << (32 - bits);
    ((v as i32) >> (32 - bits)) & !1
}
#[inline(always)]
fn branch(op: u16, taken: impl Fn(u64, u64) -> bool) {
    let mut regs = any_regs();
    let mut m = gm(&mut regs, nd::below(3) as u32);
    let s = sym(&m);
    let (pc, lr) = (m.pc, m.mem.lr);
    let off = offset(13);
    let inst = with_len(Stype::new_s(op, off, s.rs1, s.rs2).0, s.len);
    let res = run(op, inst, &mut m);
    let t = taken(s.a, s.b);
    ensure!(res.is_ok(), "a branch succeeds");
    ensure!(m.pc == pc.wrapping_add(if t { off as i64 as u64 } else { s.len as u64 }), "pc is the target iff the condition holds, else the next instruction");
    ensure!(regs_ok(&m, &s, false, 0) && quiet(&m, lr), "a branch changes nothing but pc");
    reach!(t, "taken");
    std::mem::forget(res);
}
#[inline(always)]
fn jal_(op: u16) {
    let mut regs = any_regs();
    let mut m = gm(&mut regs, nd::below(3) as u32);
    let s = sym(&m);
    let (pc, lr) = (m.pc, m.mem.lr);
    let off = offset(21);
    let inst = with_len(Utype::new_s(op, s.rd, off).0, s.len);
    let res = run(op, inst, &mut m);
    ensure!(res.is_ok(), "a jump succeeds");
    ensure!(m.pc == pc.wrapping_add(off as i64 as u64), "pc is the target");
    ensure!(regs_ok(&m, &s, true, pc.wrapping_add(s.len as u64)) && quiet(&m, lr), "rd holds the return address; nothing else changes");
    reach!(s.k == s.rd && s.rd != 0, "linked");
    std::mem::forget(res);
}
#[inline(always)]
fn jalr(op: u16, v0: bool) {
    let mut regs = any_regs();
    let mut m = gm(&mut regs, nd::below(3) as u32);
    let s = sym(&m);
    let (pc, lr) = (m.pc, m.mem.lr);
    let imm = crate::alu::simm12();
    let inst = with_len(Itype::new_s(op, s.rd, s.rs1, imm).0, s.len);
    let res = run(op, inst, &mut m);
    let link = pc.wrapping_add(s.len as u64);
    // version 0 reads rs1 after rd was written
    let base = if v0 && s.rd == s.rs1 && s.rd != 0 { link } else { s.a };
    ensure!(res.is_ok(), "a jump succeeds");
    ensure!(m.pc == base.wrapping_add(imm as i64 as u64) & !1, "pc is rs1 plus the immediate with bit 0 cleared");
    ensure!(regs_ok(&m, &s, true, link) && quiet(&m, lr), "rd holds the return address; nothing else changes");
    reach!(s.k == s.rd && s.rd == s.rs1 && s.rd != 0, "rd aliases rs1");
    std::mem::forget(res);
}
#[inline(always)]
fn far(op: u16, relative: bool) {
    let mut regs = any_regs();
    let mut m = gm(&mut regs, nd::below(3) as u32);
    let mut s = sym(&m);
    let (pc, lr) = (m.pc, m.mem.lr);
    let imm = nd::u32() as i32;
    let inst = set_instruction_length_n(Utype::new_s(op, s.rd, imm).0, 8);
    let res = run(op, inst, &mut m);
    let base = if relative { pc } else { 0 };
    s.rd = 1;
    ensure!(res.is_ok(), "a jump succeeds");
    ensure!(m.pc == base.wrapping_add(imm as i64 as u64) & !1, "pc is the far target with bit 0 cleared");
    ensure!(regs_ok(&m, &s, true, pc.wrapping_add(8)) && quiet(&m, lr), "ra holds the return address; nothing else changes");
    reach!(s.k == 1, "linked");
    std::mem::forget(res);
}
#[inline(always)]
fn plain(op: u16, ecalls: u32, ebreaks: u32) {
    let mut regs = any_regs();
    let mut m = gm(&mut regs, nd::below(3) as u32);
    let s = sym(&m);
    let (pc, lr) = (m.pc, m.mem.lr);
    let inst = with_len(Rtype::new(op, s.rd, s.rs1, s.rs2).0, s.len);
    let res = run(op, inst, &mut m);
    ensure!(m.ecalls == ecalls && m.ebreaks == ebreaks, "the environment is called exactly once, or not at all for a fence");
    ensure!(res.is_ok() || asm_err(&res) == if ecalls > 0 { E_ECALL } else { E_EBREAK }, "the environment's error is returned");
    ensure!(res.is_ok() || ecalls + ebreaks > 0, "a fence succeeds");
    ensure!(res.is_err() || m.pc == pc.wrapping_add(s.len as u64), "pc advances by the instruction length");
    ensure!(regs_ok(&m, &s, false, 0) && m.mem.n == 0 && !m.mem.bad && m.mem.lr == lr, "nothing else changes");
    reach!(res.is_ok(), "succeeds");
    std::mem::forget(res);
}
#[inline(always)]
fn invalid(op: u16) {
    let mut regs = any_regs();
    let mut m = gm(&mut regs, nd::below(3) as u32);
    let s = sym(&m);
    let lr = m.mem.lr;
    let inst = with_len(Rtype::new(op, s.rd, s.rs1, s.rs2).0, s.len);
    let res = run(op, inst, &mut m);
    ensure!(matches!(&res, Err(Error::InvalidOp(o)) if *o == op), "an internal or invalid opcode is refused");
    ensure!(regs_ok(&m, &s, false, 0) && quiet(&m, lr), "a refused opcode changes nothing");
    reach!(s.k != 0, "refused");
    std::mem::forget(res);
}
pub mod c {
    use super::*;
    use super::{branch, far, invalid, jal_, jalr, plain};
    use ckb_vm::instructions::insts::*;
    proofs! {
        fn beq [34] { branch(OP_BEQ, |a, b| a == b) }
        fn bne [34] { branch(OP_BNE, |a, b| a != b) }
        fn blt [34] { branch(OP_BLT, |a, b| (a as i64) < (b as i64)) }
        fn bge [34] { branch(OP_BGE, |a, b| (a as i64) >= (b as i64)) }
        fn bltu [34] { branch(OP_BLTU, |a, b| a < b) }
        fn bgeu [34] { branch(OP_BGEU, |a, b| a >= b) }
        fn jal [34] { jal_(OP_JAL) }
        fn jalr_v0 [34] { jalr(OP_JALR_VERSION0, true) }
        fn jalr_v1 [34] { jalr(OP_JALR_VERSION1, false) }
        fn far_jump_rel [34] { far(OP_FAR_JUMP_REL, true) }
        fn far_jump_abs [34] { far(OP_FAR_JUMP_ABS, false) }
        fn ecall [34] { plain(OP_ECALL, 1, 0) }
        fn ebreak [34] { plain(OP_EBREAK, 0, 1) }
        fn fence [34] { plain(OP_FENCE, 0, 0) }
        fn fencei [34] { plain(OP_FENCEI, 0, 0) }
        fn unloaded [34] { invalid(OP_UNLOADED) }
        fn trace_end [34] { invalid(OP_CUSTOM_TRACE_END) }
        fn asm_trace_jump [34] { invalid(OP_CUSTOM_ASM_TRACE_JUMP) }
    }
}
