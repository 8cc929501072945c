//! Contracts of the load, store, load-reserved/store-conditional and AMO handlers over a memory that is
//! only its contract (ghost::SpecMem): which accesses happen, at which address and width, with which
//! value, in which order; what rd and every other register hold afterwards; what happens to the
//! reservation; and that the memory's error is what the instruction returns.
use crate::alu::{simm12, sym, with_len, Sym};
use crate::ghost::*;
use crate::nd;
use ckb_vm::instructions::*;
use ckb_vm::machine::CoreMachine;
use ckb_vm::Error;

#[inline(always)]
fn regs_ok(m: &Gm, s: &Sym, wrote: bool, value: u64) -> bool {
    let want = if s.k == 0 { 0 } else if wrote && s.k == s.rd { value } else { s.old };
    m.registers()[s.k] == want
}
fn ext(signed: bool, width: u8, v: u64) -> u64 {
    if signed { sext(v & mask(width), width as u32 * 8) } else { v & mask(width) }
}
#[inline(always)]
fn load(op: u16, v0: bool, width: u8, signed: bool) {
    let mut regs = any_regs();
    let mut m = gm(&mut regs, nd::below(3) as u32);
    let s = sym(&m);
    let (pc, lr) = (m.pc, m.mem.lr);
    let imm = simm12();
    let inst = with_len(Itype::new_s(op, s.rd, s.rs1, imm).0, s.len);
    let res = run(op, inst, &mut m);
    let addr = s.a.wrapping_add(imm as i64 as u64);
    let (end, over) = addr.overflowing_add(width as u64);
    let blocked = v0 && (over || end == m.mem.size);
    if blocked {
        ensure!(matches!(&res, Err(Error::MemOutOfBound(..))), "a version 0 load that ends at the memory size is refused");
        ensure!(m.mem.n == 0 && regs_ok(&m, &s, false, 0), "a refused load changes nothing");
    } else {
        let e = m.mem.log[0];
        ensure!(m.mem.n == 1 && !e.store && e.width == width && e.addr == addr, "one load, of the ISA width, at rs1 plus the sign-extended immediate");
        if e.err {
            ensure!(asm_err(&res) == E_LOAD, "the memory's error is returned");
            ensure!(regs_ok(&m, &s, false, 0), "a failed load changes no register");
        } else {
            ensure!(res.is_ok(), "the load succeeds");
            ensure!(regs_ok(&m, &s, true, ext(signed, width, e.value)), "rd holds the extended value; nothing else changes");
            ensure!(m.pc == pc.wrapping_add(s.len as u64), "pc advances by the instruction length");
            reach!(s.k == s.rd && s.rd != 0, "loaded");
        }
    }
    ensure!(m.mem.lr == lr && !m.mem.bad && m.ecalls == 0, "no other effect");
    std::mem::forget(res);
}
#[inline(always)]
fn store(op: u16, width: u8) {
    let mut regs = any_regs();
    let mut m = gm(&mut regs, nd::below(3) as u32);
    let s = sym(&m);
    let (pc, lr) = (m.pc, m.mem.lr);
    let imm = simm12();
    let inst = with_len(Stype::new_s(op, imm, s.rs1, s.rs2).0, s.len);
    let res = run(op, inst, &mut m);
    let addr = s.a.wrapping_add(imm as i64 as u64);
    let e = m.mem.log[0];
    ensure!(m.mem.n == 1 && e.store && e.width == width && e.addr == addr && e.value == s.b & mask(width),
        "one store, of the ISA width, of the low bits of rs2, at rs1 plus the sign-extended immediate");
    ensure!(asm_err(&res) == if e.err { E_STORE } else { 0 }, "the store's result is the memory's result");
    ensure!(regs_ok(&m, &s, false, 0), "a store changes no register");
    ensure!(e.err || m.pc == pc.wrapping_add(s.len as u64), "pc advances by the instruction length");
    ensure!(m.mem.lr == lr && !m.mem.bad && m.ecalls == 0, "no other effect");
    reach!(!e.err, "stored");
    std::mem::forget(res);
}
#[inline(always)]
fn amo(op: u16, width: u8, f: impl Fn(u64, u64) -> u64) {
    let mut regs = any_regs();
    let mut m = gm(&mut regs, nd::below(3) as u32);
    let s = sym(&m);
    let (pc, lr) = (m.pc, m.mem.lr);
    let inst = with_len(Rtype::new(op, s.rd, s.rs1, s.rs2).0, s.len);
    let res = run(op, inst, &mut m);
    let l = m.mem.log[0];
    ensure!(m.mem.n >= 1 && !l.store && l.width == width && l.addr == s.a, "the AMO first loads, at the address in rs1");
    if l.err {
        ensure!(m.mem.n == 1 && asm_err(&res) == E_LOAD && regs_ok(&m, &s, false, 0), "a failed load ends the AMO without effect");
    } else {
        let w = m.mem.log[1];
        let x = ext(true, width, l.value);
        let y = ext(true, width, s.b);
        ensure!(m.mem.n == 2 && w.store && w.width == width && w.addr == s.a, "then stores, at the same address");
        ensure!(w.value == f(x, y) & mask(width), "the stored value is the AMO's function of the loaded value and rs2");
        ensure!(asm_err(&res) == if w.err { E_STORE } else { 0 }, "the result is the memory's result");
        if !w.err {
            ensure!(regs_ok(&m, &s, true, x), "rd holds the sign-extended old memory value; nothing else changes");
            ensure!(m.pc == pc.wrapping_add(s.len as u64), "pc advances by the instruction length");
            reach!(s.k == s.rd && s.rd != 0, "performed");
        } else {
            ensure!(s.k == s.rd || regs_ok(&m, &s, false, 0), "a failed store leaves every register but rd alone");
        }
    }
    ensure!(m.mem.lr == lr && !m.mem.bad && m.ecalls == 0, "no other effect");
    std::mem::forget(res);
}
#[inline(always)]
fn lr(op: u16, width: u8) {
    let mut regs = any_regs();
    let mut m = gm(&mut regs, nd::below(3) as u32);
    let s = sym(&m);
    let (pc, lr) = (m.pc, m.mem.lr);
    let inst = with_len(Rtype::new(op, s.rd, s.rs1, s.rs2).0, s.len);
    let res = run(op, inst, &mut m);
    let l = m.mem.log[0];
    ensure!(m.mem.n == 1 && !l.store && l.width == width && l.addr == s.a, "one load, at the address in rs1");
    if l.err {
        ensure!(asm_err(&res) == E_LOAD && regs_ok(&m, &s, false, 0) && m.mem.lr == lr, "a failed load-reserved has no effect");
    } else {
        ensure!(res.is_ok() && regs_ok(&m, &s, true, ext(true, width, l.value)), "rd holds the sign-extended value; nothing else changes");
        ensure!(m.mem.lr == s.a, "the address is reserved");
        ensure!(m.pc == pc.wrapping_add(s.len as u64), "pc advances by the instruction length");
        reach!(s.k == s.rd && s.rd == s.rs1 && s.rd != 0, "reserved");
    }
    ensure!(!m.mem.bad && m.ecalls == 0, "no other effect");
    std::mem::forget(res);
}
#[inline(always)]
fn sc(op: u16, width: u8) {
    let mut regs = any_regs();
    let mut m = gm(&mut regs, nd::below(3) as u32);
    let s = sym(&m);
    let (pc, lr) = (m.pc, m.mem.lr);
    let inst = with_len(Rtype::new(op, s.rd, s.rs1, s.rs2).0, s.len);
    let res = run(op, inst, &mut m);
    let success = s.a == lr;
    // the accesses: any loads at the same address, then at most one store
    let (e0, e1) = (m.mem.log[0], m.mem.log[1]);
    ensure!(m.mem.n <= 2 && (m.mem.n < 2 || !e0.store), "at most a load and then a store");
    ensure!(m.mem.n == 0 || (e0.addr == s.a && e0.width == width), "every access is at the address in rs1");
    ensure!(m.mem.n < 2 || (e1.addr == s.a && e1.width == width), "every access is at the address in rs1");
    let failed = (m.mem.n > 0 && e0.err) || (m.mem.n > 1 && e1.err);
    if failed {
        ensure!(res.is_err() && regs_ok(&m, &s, false, 0), "the memory's error is returned, no register changes");
    } else {
        ensure!(res.is_ok(), "the instruction succeeds");
        let st = if m.mem.n == 2 { e1 } else { e0 };
        let stored = m.mem.n > 0 && st.store;
        if success {
            ensure!(stored && st.value == s.b & mask(width), "with a valid reservation the low bits of rs2 are stored");
            reach!(s.rd == s.k && s.rd != 0, "succeeds");
        } else {
            ensure!(!stored || (m.mem.n == 2 && e1.value == e0.value), "without a reservation memory keeps its value");
            reach!(s.rd == s.k && s.rd != 0, "fails");
        }
        ensure!(regs_ok(&m, &s, true, !success as u64), "rd is 0 on success and 1 on failure; nothing else changes");
        ensure!(m.mem.lr == u64::MAX, "the reservation is gone");
        ensure!(m.pc == pc.wrapping_add(s.len as u64), "pc advances by the instruction length");
    }
    ensure!(!m.mem.bad && m.ecalls == 0, "no other effect");
    std::mem::forget(res);
}
fn smin(a: u64, b: u64) -> u64 {
    if (a as i64) < (b as i64) { a } else { b }
}
fn smax(a: u64, b: u64) -> u64 {
    if (a as i64) < (b as i64) { b } else { a }
}
pub mod ls {
    use super::{load, store};
    use ckb_vm::instructions::insts::*;
    proofs! {
        fn lb_v0 [34] { load(OP_LB_VERSION0, true, 1, true) }
        fn lh_v0 [34] { load(OP_LH_VERSION0, true, 2, true) }
        fn lw_v0 [34] { load(OP_LW_VERSION0, true, 4, true) }
        fn ld_v0 [34] { load(OP_LD_VERSION0, true, 8, true) }
        fn lbu_v0 [34] { load(OP_LBU_VERSION0, true, 1, false) }
        fn lhu_v0 [34] { load(OP_LHU_VERSION0, true, 2, false) }
        fn lwu_v0 [34] { load(OP_LWU_VERSION0, true, 4, false) }
        fn lb [34] { load(OP_LB_VERSION1, false, 1, true) }
        fn lh [34] { load(OP_LH_VERSION1, false, 2, true) }
        fn lw [34] { load(OP_LW_VERSION1, false, 4, true) }
        fn ld [34] { load(OP_LD_VERSION1, false, 8, true) }
        fn lbu [34] { load(OP_LBU_VERSION1, false, 1, false) }
        fn lhu [34] { load(OP_LHU_VERSION1, false, 2, false) }
        fn lwu [34] { load(OP_LWU_VERSION1, false, 4, false) }
        fn sb [34] { store(OP_SB, 1) }
        fn sh [34] { store(OP_SH, 2) }
        fn sw [34] { store(OP_SW, 4) }
        fn sd [34] { store(OP_SD, 8) }
    }
}
pub mod atomic {
    use super::{amo, lr, sc, smax, smin};
    use ckb_vm::instructions::insts::*;
    proofs! {
        fn lr_w [34] { lr(OP_LR_W, 4) }
        fn lr_d [34] { lr(OP_LR_D, 8) }
        fn sc_w [34] { sc(OP_SC_W, 4) }
        fn sc_d [34] { sc(OP_SC_D, 8) }
        fn amoswap_w [34] { amo(OP_AMOSWAP_W, 4, |_, y| y) }
        fn amoswap_d [34] { amo(OP_AMOSWAP_D, 8, |_, y| y) }
        fn amoadd_w [34] { amo(OP_AMOADD_W, 4, |x, y| x.wrapping_add(y)) }
        fn amoadd_d [34] { amo(OP_AMOADD_D, 8, |x, y| x.wrapping_add(y)) }
        fn amoxor_w [34] { amo(OP_AMOXOR_W, 4, |x, y| x ^ y) }
        fn amoxor_d [34] { amo(OP_AMOXOR_D, 8, |x, y| x ^ y) }
        fn amoand_w [34] { amo(OP_AMOAND_W, 4, |x, y| x & y) }
        fn amoand_d [34] { amo(OP_AMOAND_D, 8, |x, y| x & y) }
        fn amoor_w [34] { amo(OP_AMOOR_W, 4, |x, y| x | y) }
        fn amoor_d [34] { amo(OP_AMOOR_D, 8, |x, y| x | y) }
        fn amomin_w [34] { amo(OP_AMOMIN_W, 4, smin) }
        fn amomin_d [34] { amo(OP_AMOMIN_D, 8, smin) }
        fn amomax_w [34] { amo(OP_AMOMAX_W, 4, smax) }
        fn amomax_d [34] { amo(OP_AMOMAX_D, 8, smax) }
        fn amominu_w [34] { amo(OP_AMOMINU_W, 4, |x, y| x.min(y)) }
        fn amominu_d [34] { amo(OP_AMOMINU_D, 8, |x, y| x.min(y)) }
        fn amomaxu_w [34] { amo(OP_AMOMAXU_W, 4, |x, y| x.max(y)) }
        fn amomaxu_d [34] { amo(OP_AMOMAXU_D, 8, |x, y| x.max(y)) }
    }
}
