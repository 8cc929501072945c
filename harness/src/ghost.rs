//! The machine the instruction handlers are verified against: 32 symbolic registers, a symbolic
//! program counter, and a memory that is *only* its contract (an access returns an arbitrary value of
//! its width or an arbitrary error, and is recorded).
use crate::nd;
use ckb_vm::instructions::{Instruction, ThreadFactory};
use ckb_vm::machine::{CoreMachine, Machine};
use ckb_vm::{Bytes, Error, Memory};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Event {
    pub store: bool,
    pub width: u8,
    pub addr: u64,
    pub value: u64,
    pub err: bool,
}
pub const NOEV: Event = Event { store: false, width: 0, addr: 0, value: 0, err: false };

pub fn mask(width: u8) -> u64 {
    match width {
        1 => 0xff,
        2 => 0xffff,
        4 => 0xffff_ffff,
        _ => u64::MAX,
    }
}
pub fn sext(v: u64, bits: u32) -> u64 {
    (((v << (64 - bits)) as i64) >> (64 - bits)) as u64
}

pub const E_LOAD: u8 = 77;
pub const E_STORE: u8 = 78;
pub const E_ECALL: u8 = 79;
pub const E_EBREAK: u8 = 80;
/// error returned by contract components where they are called outside their contract
pub const E_CONTRACT: u8 = 81;

pub struct SpecMem {
    pub size: u64,
    pub log: [Event; 2],
    pub n: usize,
    /// more than two accesses, or an access through an operation instructions must not use
    pub bad: bool,
    pub lr: u64,
    /// Some(v): every access succeeds and loads give v
    pub fixed: Option<u64>,
}
impl SpecMem {
    pub fn any() -> Self {
        SpecMem { size: nd::u64(), log: [NOEV; 2], n: 0, bad: false, lr: nd::u64(), fixed: None }
    }
    fn access(&mut self, store: bool, width: u8, addr: u64, v: u64) -> Result<u64, Error> {
        let (err, got) = match self.fixed {
            Some(x) => (false, x),
            None => (nd::bool(), if store { 0 } else { nd::u64() }),
        };
        let value = if store { v & mask(width) } else { got & mask(width) };
        let e = Event { store, width, addr, value, err };
        if self.n == 0 {
            self.log[0] = e;
        } else if self.n == 1 {
            self.log[1] = e;
        } else {
            self.bad = true;
        }
        self.n += 1;
        if err {
            Err(Error::Asm(if store { E_STORE } else { E_LOAD }))
        } else {
            Ok(value)
        }
    }
    fn off<T>(&mut self) -> Result<T, Error> {
        self.bad = true;
        Err(Error::Asm(E_CONTRACT))
    }
}
impl Memory for SpecMem {
    type REG = u64;
    fn reset_memory(&mut self) -> Result<(), Error> { self.off() }
    fn init_pages(&mut self, _: u64, _: u64, _: u8, _: Option<Bytes>, _: u64) -> Result<(), Error> { self.off() }
    fn fetch_flag(&mut self, _: u64) -> Result<u8, Error> { self.off() }
    fn set_flag(&mut self, _: u64, _: u8) -> Result<(), Error> { self.off() }
    fn clear_flag(&mut self, _: u64, _: u8) -> Result<(), Error> { self.off() }
    fn memory_size(&self) -> usize { self.size as usize }
    fn store_byte(&mut self, _: u64, _: u64, _: u8) -> Result<(), Error> { self.off() }
    fn store_bytes(&mut self, _: u64, _: &[u8]) -> Result<(), Error> { self.off() }
    fn load_bytes(&mut self, _: u64, _: u64) -> Result<Bytes, Error> { self.off() }
    fn execute_load16(&mut self, _: u64) -> Result<u16, Error> { self.off() }
    fn execute_load32(&mut self, _: u64) -> Result<u32, Error> { self.off() }
    fn load8(&mut self, a: &u64) -> Result<u64, Error> { self.access(false, 1, *a, 0) }
    fn load16(&mut self, a: &u64) -> Result<u64, Error> { self.access(false, 2, *a, 0) }
    fn load32(&mut self, a: &u64) -> Result<u64, Error> { self.access(false, 4, *a, 0) }
    fn load64(&mut self, a: &u64) -> Result<u64, Error> { self.access(false, 8, *a, 0) }
    fn store8(&mut self, a: &u64, v: &u64) -> Result<(), Error> { self.access(true, 1, *a, *v).map(|_| ()) }
    fn store16(&mut self, a: &u64, v: &u64) -> Result<(), Error> { self.access(true, 2, *a, *v).map(|_| ()) }
    fn store32(&mut self, a: &u64, v: &u64) -> Result<(), Error> { self.access(true, 4, *a, *v).map(|_| ()) }
    fn store64(&mut self, a: &u64, v: &u64) -> Result<(), Error> { self.access(true, 8, *a, *v).map(|_| ()) }
    fn lr(&self) -> &u64 { &self.lr }
    fn set_lr(&mut self, v: &u64) { self.lr = *v }
}

pub struct Gm<'a> {
    pub regs: &'a mut [u64; 32],
    pub pc: u64,
    pub next: u64,
    pub mem: SpecMem,
    pub isa: u8,
    pub ver: u32,
    pub ecalls: u32,
    pub ebreaks: u32,
}
impl<'a> CoreMachine for Gm<'a> {
    type REG = u64;
    type MEM = SpecMem;
    fn pc(&self) -> &u64 { &self.pc }
    fn update_pc(&mut self, pc: u64) { self.next = pc }
    fn commit_pc(&mut self) { self.pc = self.next }
    fn memory(&self) -> &SpecMem { &self.mem }
    fn memory_mut(&mut self) -> &mut SpecMem { &mut self.mem }
    fn registers(&self) -> &[u64] { &self.regs[..] }
    fn set_register(&mut self, i: usize, v: u64) { self.regs[i] = v }
    fn version(&self) -> u32 { self.ver }
    fn isa(&self) -> u8 { self.isa }
}
impl<'a> Machine for Gm<'a> {
    fn ecall(&mut self) -> Result<(), Error> {
        self.ecalls += 1;
        if self.mem.fixed.is_none() && nd::bool() { Err(Error::Asm(E_ECALL)) } else { Ok(()) }
    }
    fn ebreak(&mut self) -> Result<(), Error> {
        self.ebreaks += 1;
        if self.mem.fixed.is_none() && nd::bool() { Err(Error::Asm(E_EBREAK)) } else { Ok(()) }
    }
}

/// 32 arbitrary registers, x0 zero.
pub fn any_regs() -> [u64; 32] {
    #[cfg(kani)]
    let mut r: [u64; 32] = kani::any();
    #[cfg(not(kani))]
    let mut r: [u64; 32] = std::array::from_fn(|_| nd::u64());
    r[0] = 0;
    r
}

pub fn gm(regs: &mut [u64; 32], ver: u32) -> Gm<'_> {
    Gm { regs, pc: nd::u64(), next: nd::u64(), mem: SpecMem::any(), isa: 7, ver, ecalls: 0, ebreaks: 0 }
}

/// Runs one instruction through the crate's own handler table and the crate's pc protocol.
#[inline(always)]
pub fn run(op: u16, inst: Instruction, m: &mut Gm) -> Result<(), Error> {
    let tf = ThreadFactory::<Gm>::create();
    let th = tf.get_cloned(op).unwrap();
    let r = ckb_vm::instructions::execute_with_thread(inst, m, &th);
    std::mem::forget(tf);
    r
}
/// Error class, without dropping or comparing strings.
pub fn asm_err(r: &Result<(), Error>) -> u8 {
    match r {
        Ok(()) => 0,
        Err(Error::Asm(c)) => *c,
        Err(_) => 255,
    }
}
