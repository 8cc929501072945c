//! The two dispatchers: `execute` (a match on the opcode, used by stepping machines) and `ThreadFactory` (a
//! table, used by trace machines, and the entry the handler contracts are proved through) run the same handler
//! for every opcode, and every other opcode is refused without effect.
use crate::ghost::*;
use crate::nd;
use ckb_vm::instructions::insts::*;
use ckb_vm::instructions::*;
use ckb_vm::Error;

fn regs(salt: u64) -> [u64; 32] {
    let mut r = [0u64; 32];
    let mut k = 1;
    while k < 32 {
        r[k] = (k as u64 + salt).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ salt;
        k += 1;
    }
    // operands that make divisions, shifts and comparisons tell apart
    r[5] = 0x8000_0000_0000_0009 ^ salt;
    r[6] = 0xffff_ffff_ffff_ff85;
    r[7] = 35 + salt;
    r
}
fn machine(r: &mut [u64; 32], ver: u32) -> Gm<'_> {
    Gm {
        regs: r, pc: 0x1_0000_0100, next: 0,
        mem: SpecMem { size: 1 << 63, log: [NOEV; 2], n: 0, bad: false, lr: 0x2000, fixed: Some(0x8182_8384_8586_8788) },
        isa: 7, ver, ecalls: 0, ebreaks: 0,
    }
}
fn code(r: &Result<(), Error>) -> u32 {
    match r {
        Ok(()) => 0,
        Err(Error::Asm(c)) => *c as u32,
        Err(Error::InvalidOp(o)) => 0x1_0000 + *o as u32,
        Err(_) => 255,
    }
}
/// both dispatchers on the opcodes lo..hi
fn both(lo: u16, hi: u16, salt: u64) {
    let mut op = lo;
    while op < hi {
        let ver = (op & 1) as u32 + 1;
        let inst = if op == OP_BEQ || op == OP_BNE || op == OP_BLT || op == OP_BGE || op == OP_BLTU || op == OP_BGEU || op == OP_SB || op == OP_SH || op == OP_SW || op == OP_SD {
            Stype::new_s(op, 0x40, 6, 5).0
        } else {
            let many = op == OP_ADC || op == OP_SBB || op == OP_ADCS || op == OP_SBBS || op == OP_ADD3A || op == OP_ADD3B || op == OP_ADD3C
                || op == OP_WIDE_MUL || op == OP_WIDE_MULU || op == OP_WIDE_MULSU || op == OP_WIDE_DIV || op == OP_WIDE_DIVU;
            // 6 is also the immediate of the immediate forms
            if many { R5type::new(op, 8, 5, 6, 9, 10).0 } else { Rtype::new(op, 8, 5, 6).0 }
        };
        let inst = set_instruction_length_4(inst);
        let (mut ra, mut rb) = (regs(salt), regs(salt));
        let (mut a, mut b) = (machine(&mut ra, ver), machine(&mut rb, ver));
        let x = execute(inst, &mut a);
        let y = run(op, inst, &mut b);
        ensure!(code(&x) == code(&y), "both dispatchers end alike");
        ensure!(a.pc == b.pc && a.mem.lr == b.mem.lr && a.ecalls == b.ecalls && a.ebreaks == b.ebreaks, "both dispatchers leave the same pc and reservation");
        ensure!(a.mem.n == b.mem.n && a.mem.log[0] == b.mem.log[0] && a.mem.log[1] == b.mem.log[1], "both dispatchers access memory alike");
        let mut k = 0;
        while k < 32 {
            ensure!(a.regs[k] == b.regs[k], "both dispatchers leave the same registers");
            k += 1;
        }
        std::mem::forget((x, y));
        op += 1;
    }
    reach!(op == hi, "all opcodes of the range");
}
fn refused(inst: u64, op: u16) {
    let mut r = regs(1);
    let r0 = r;
    let mut m = machine(&mut r, 2);
    let x = execute(inst, &mut m);
    ensure!(matches!(&x, Err(Error::InvalidOp(o)) if *o == op), "an opcode that is no instruction is refused with its number");
    ensure!(m.mem.n == 0 && m.ecalls == 0 && m.ebreaks == 0 && m.mem.lr == 0x2000, "a refused opcode has no effect");
    let mut k = 0;
    while k < 32 {
        ensure!(m.regs[k] == r0[k], "a refused opcode changes no register");
        k += 1;
    }
    std::mem::forget(x);
}
proofs! {
    fn ops_10 [70] { both(0x10, 0x1a, 1) }
    fn ops_1a [70] { both(0x1a, 0x24, 1) }
    fn ops_24 [70] { both(0x24, 0x2e, 1) }
    fn ops_2e [70] { both(0x2e, 0x38, 1) }
    fn ops_38 [70] { both(0x38, 0x42, 1) }
    fn ops_42 [70] { both(0x42, 0x4c, 1) }
    fn ops_4c [70] { both(0x4c, 0x56, 1) }
    fn ops_56 [70] { both(0x56, 0x60, 1) }
    fn ops_60 [70] { both(0x60, 0x6a, 1) }
    fn ops_6a [70] { both(0x6a, 0x74, 1) }
    fn ops_74 [70] { both(0x74, 0x7e, 1) }
    fn ops_7e [70] { both(0x7e, 0x88, 1) }
    fn ops_88 [70] { both(0x88, 0x92, 1) }
    fn ops_92 [70] { both(0x92, 0x9c, 1) }
    fn ops_9c [70] { both(0x9c, 0xa6, 1) }
    fn ops_a6 [70] { both(0xa6, 0xae, 1) }
    fn table [34] {
        // a number outside the opcode range has no handler; every number inside has one
        let tf = ThreadFactory::<Gm>::create();
        let op = nd::u16();
        ensure!(tf.get(op).is_some() == (op >= MINIMAL_OPCODE && op <= MAXIMUM_OPCODE), "exactly the opcodes have handlers");
        reach!(op == 0xffff, "any number");
        std::mem::forget(tf);
    }
    fn not_ops [34] {
        let mut o = 0u16;
        while o < 0x10 {
            refused(set_instruction_length_4(Rtype::new(o, 8, 5, 6).0), o);
            o += 1;
        }
        let mut o = 0xaeu16;
        while o < 0xb8 {
            refused(set_instruction_length_4(Rtype::new(o, 8, 5, 6).0), o);
            o += 1;
        }
        refused(set_instruction_length_4(Rtype::new(0xff, 8, 5, 6).0), 0xff);
        reach!(o == 0xb8, "all");
    }
}
