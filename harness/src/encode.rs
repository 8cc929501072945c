//! Contracts of the internal instruction form: every constructor's fields read back unchanged, the opcode
//! and the length do not disturb them, for every value of the fields' widths.
use crate::nd;
use ckb_vm::instructions::tagged::TaggedInstruction;
use ckb_vm::instructions::*;
use std::convert::TryFrom;

fn idx() -> usize {
    nd::below(32) as usize
}
fn imm24() -> i32 {
    ((nd::u32() << 8) as i32) >> 8
}
fn len() -> u8 {
    (nd::below(15) * 2 + 2) as u8
}
proofs! {
    fn rtype [2] {
        let (op, a, b, c, n) = (nd::u16(), idx(), idx(), idx(), len());
        let i = set_instruction_length_n(Rtype::new(op, a, b, c).0, n);
        let t = Rtype(i);
        ensure!(extract_opcode(i) == op && t.op() == op && t.rd() == a && t.rs1() == b && t.rs2() == c && instruction_length(i) == n,
            "R-type fields read back");
        reach!(a != b && n == 30, "any");
    }
    fn itype [2] {
        let (op, a, b, v, n) = (nd::u16(), idx(), idx(), imm24(), len());
        let i = set_instruction_length_n(Itype::new_s(op, a, b, v).0, n);
        let t = Itype(i);
        ensure!(extract_opcode(i) == op && t.op() == op && t.rd() == a && t.rs1() == b && t.immediate_s() == v
            && t.immediate_u() == v as u32 && instruction_length(i) == n, "I-type fields read back");
        ensure!(Itype::new_u(op, a, b, v as u32).0 == Itype::new_s(op, a, b, v).0, "signed and unsigned constructors agree");
        reach!(v < 0, "negative immediate");
    }
    fn stype [2] {
        let (op, a, b, v, n) = (nd::u16(), idx(), idx(), imm24(), len());
        let i = set_instruction_length_n(Stype::new_s(op, v, a, b).0, n);
        let t = Stype(i);
        ensure!(extract_opcode(i) == op && t.op() == op && t.rs1() == a && t.rs2() == b && t.immediate_s() == v
            && t.immediate_u() == v as u32 && instruction_length(i) == n, "S-type fields read back");
        ensure!(Stype::new_u(op, v as u32, a, b).0 == Stype::new_s(op, v, a, b).0, "signed and unsigned constructors agree");
        reach!(v < 0, "negative immediate");
    }
    fn utype [2] {
        let (op, a, v, n) = (nd::u16(), idx(), nd::u32() as i32, len());
        let i = set_instruction_length_n(Utype::new_s(op, a, v).0, n);
        let t = Utype(i);
        ensure!(extract_opcode(i) == op && t.op() == op && t.rd() == a && t.immediate_s() == v && t.immediate_u() == v as u32
            && instruction_length(i) == n, "U-type fields read back");
        reach!(v < 0, "negative immediate");
    }
    fn r4type [2] {
        let (op, a, b, c, d, n) = (nd::u16(), idx(), idx(), idx(), idx(), len());
        let i = set_instruction_length_n(R4type::new(op, a, b, c, d).0, n);
        let t = R4type(i);
        ensure!(extract_opcode(i) == op && t.op() == op && t.rd() == a && t.rs1() == b && t.rs2() == c && t.rs3() == d
            && instruction_length(i) == n, "R4-type fields read back");
        reach!(d > c, "any");
    }
    fn r5type [2] {
        let (op, a, b, c, d, f, n) = (nd::u16(), idx(), idx(), idx(), idx(), idx(), len());
        let i = set_instruction_length_n(R5type::new(op, a, b, c, d, f).0, n);
        let t = R5type(i);
        ensure!(extract_opcode(i) == op && t.op() == op && t.rd() == a && t.rs1() == b && t.rs2() == c && t.rs3() == d && t.rs4() == f
            && instruction_length(i) == n, "R5-type fields read back");
        reach!(f > c, "any");
    }
    fn lengths [2] {
        let op = nd::u16();
        let b = blank_instruction(op);
        ensure!(extract_opcode(b) == op && instruction_length(b) == 0, "a blank instruction has its opcode and no length");
        ensure!(instruction_length(set_instruction_length_2(b)) == 2 && instruction_length(set_instruction_length_4(b)) == 4, "the length is what was set");
        ensure!(extract_opcode(set_instruction_length_4(b)) == op, "setting the length keeps the opcode");
        reach!(op > 0xff, "any");
    }
    fn basic_block_end [2] {
        let i = nd::u64();
        let op = extract_opcode(i);
        let control = matches!(op, insts::OP_AUIPC | insts::OP_JAL | insts::OP_JALR_VERSION0 | insts::OP_JALR_VERSION1 | insts::OP_BEQ
            | insts::OP_BNE | insts::OP_BLT | insts::OP_BGE | insts::OP_BLTU | insts::OP_BGEU | insts::OP_ECALL | insts::OP_EBREAK
            | insts::OP_FAR_JUMP_REL | insts::OP_FAR_JUMP_ABS);
        nd::assume((insts::OP_UNLOADED..=insts::OP_CUSTOM_TRACE_END).contains(&op));
        ensure!(!control || op == insts::OP_AUIPC || is_basic_block_end_instruction(i), "every instruction that may change the control flow ends a block");
        reach!(control, "a jump");
    }
    fn tagged_round_trip [2] {
        let i = nd::u64();
        let op = extract_opcode(i);
        let t = TaggedInstruction::try_from(i);
        ensure!(t.is_ok() == (insts::OP_UNLOADED..=insts::OP_CUSTOM_TRACE_END).contains(&op), "exactly the defined opcodes are tagged");
        if let Ok(t) = t {
            let back: u64 = t.into();
            ensure!(back == i, "tagging loses nothing");
        } else {
            std::mem::forget(t);
        }
        reach!(op == insts::OP_ADD, "any");
    }
}
