//! Contracts of instruction fetch and of the decoder's cache, over a memory that is only its contract:
//! the four halfwords around pc are arbitrary, and any of the two pages may refuse execution.
use crate::nd;
use ckb_vm::decoder::{Decoder, InstDecoder};
use ckb_vm::{Bytes, Error, Memory};

pub const E_X: u8 = 90;
/// Executable memory contract: `h[k]` is the halfword at base + 2k; halfwords at or after `wall` refuse execution.
pub struct Code {
    pub size: u64,
    /// halfwords by address (first match wins; 0 elsewhere)
    pub at: [u64; 4],
    pub h: [u16; 4],
    /// no byte of a page at or after `wall` is executable
    pub wall: u64,
}
impl Code {
    pub fn half(&self, a: u64) -> u16 {
        if a == self.at[0] { self.h[0] } else if a == self.at[1] { self.h[1] } else if a == self.at[2] { self.h[2] } else if a == self.at[3] { self.h[3] } else { 0 }
    }
    fn bad<T>(&self) -> Result<T, Error> {
        Err(Error::Asm(E_X))
    }
}
impl Memory for Code {
    type REG = u64;
    fn reset_memory(&mut self) -> Result<(), Error> { self.bad() }
    fn init_pages(&mut self, _: u64, _: u64, _: u8, _: Option<Bytes>, _: u64) -> Result<(), Error> { self.bad() }
    fn fetch_flag(&mut self, _: u64) -> Result<u8, Error> { self.bad() }
    fn set_flag(&mut self, _: u64, _: u8) -> Result<(), Error> { self.bad() }
    fn clear_flag(&mut self, _: u64, _: u8) -> Result<(), Error> { self.bad() }
    fn memory_size(&self) -> usize { self.size as usize }
    fn store_byte(&mut self, _: u64, _: u64, _: u8) -> Result<(), Error> { self.bad() }
    fn store_bytes(&mut self, _: u64, _: &[u8]) -> Result<(), Error> { self.bad() }
    fn load_bytes(&mut self, _: u64, _: u64) -> Result<Bytes, Error> { self.bad() }
    fn execute_load16(&mut self, a: u64) -> Result<u16, Error> {
        if a >= self.wall { self.bad() } else { Ok(self.half(a)) }
    }
    fn execute_load32(&mut self, a: u64) -> Result<u32, Error> {
        if a >= self.wall || a + 2 >= self.wall { self.bad() } else { Ok(self.half(a) as u32 | (self.half(a + 2) as u32) << 16) }
    }
    fn load8(&mut self, _: &u64) -> Result<u64, Error> { self.bad() }
    fn load16(&mut self, _: &u64) -> Result<u64, Error> { self.bad() }
    fn load32(&mut self, _: &u64) -> Result<u64, Error> { self.bad() }
    fn load64(&mut self, _: &u64) -> Result<u64, Error> { self.bad() }
    fn store8(&mut self, _: &u64, _: &u64) -> Result<(), Error> { self.bad() }
    fn store16(&mut self, _: &u64, _: &u64) -> Result<(), Error> { self.bad() }
    fn store32(&mut self, _: &u64, _: &u64) -> Result<(), Error> { self.bad() }
    fn store64(&mut self, _: &u64, _: &u64) -> Result<(), Error> { self.bad() }
    fn lr(&self) -> &u64 { &self.size }
    fn set_lr(&mut self, _: &u64) {}
}
/// a factory that reports the bits it was given (and refuses some)
fn echo(bits: u32, version: u32) -> Option<u64> {
    if bits & 0xff == 0x13 { None } else { Some(bits as u64 | 1 << 40 | (version as u64) << 48) }
}
/// a second factory: decodes some of what the first refuses
fn echo2(bits: u32, _version: u32) -> Option<u64> {
    if bits & 0x8000 == 0 { None } else { Some(bits as u64 | 1 << 41) }
}
/// machine addresses are below this
const TOP: u64 = 1 << 40;
/// code around `a` and `b`
fn code(a: u64, b: u64) -> Code {
    let size = nd::below(TOP);
    Code { size, at: [a, a + 2, b, b + 2], h: [nd::u16(), nd::u16(), nd::u16(), nd::u16()], wall: nd::below(1 << 29) << 12 }
}
fn pc() -> u64 {
    nd::below(TOP) << 1
}
/// what a fetch at `pc` must give: 0 refused as out of memory, 1 refused by the memory, 2 undecodable, 3 Ok(value)
fn spec(m: &Code, v: u32, pc: u64) -> (u8, u64) {
    let (h0, h1) = (m.half(pc) as u32, m.half(pc + 2) as u32);
    let wide = h0 & 3 == 3;
    let word = if wide { h0 | h1 << 16 } else { h0 };
    if pc >= m.size {
        (0, pc)
    } else if pc >= m.wall || wide && pc + 2 >= m.wall {
        (1, 0)
    } else if word & 0xff != 0x13 {
        (3, word as u64 | 1 << 40 | (v as u64) << 48)
    } else if word & 0x8000 != 0 {
        (3, word as u64 | 1 << 41)
    } else {
        (2, word as u64)
    }
}
fn agree(r: &Result<u64, Error>, w: (u8, u64), pc: u64) {
    match w.0 {
        0 => ensure!(matches!(r, Err(Error::MemOutOfBound(a, _)) if *a == pc), "a pc outside memory is refused, with that address"),
        1 => ensure!(matches!(r, Err(Error::Asm(E_X))), "an instruction with a byte that is not executable is refused"),
        2 => ensure!(matches!(r, Err(Error::InvalidInstruction { pc: p, instruction: i }) if *p == pc && *i as u64 == w.1), "an undecodable word is refused with its pc and bits"),
        _ => ensure!(matches!(r, Ok(i) if *i == w.1), "exactly the instruction's own bytes are decoded, by the first decoder that knows them"),
    }
}
fn decoder() -> (Decoder, u32) {
    let v = nd::below(3) as u32;
    let mut d = Decoder::new(false, v);
    d.add_instruction_factory(echo);
    d.add_instruction_factory(echo2);
    (d, v)
}
proofs! {
    fn fetch [18] {
        let p = pc();
        let mut m = code(p, p);
        let (mut d, v) = decoder();
        let w = spec(&m, v, p);
        let r = d.decode_raw(&mut m, p);
        agree(&r, w, p);
        reach!(w.0 == 3 && p & 4095 == 4094 && m.h[0] & 3 == 3, "an instruction across a page boundary");
        reach!(w.0 == 3 && p & 4095 == 4094 && m.h[0] & 3 != 3 && m.wall == p + 2, "a compressed instruction before a page that is not executable");
        std::mem::forget(r);
        std::mem::forget(d);
    }
    fn no_fusion [18] {
        // with fusion off, decoding is fetching
        let p = pc();
        let mut m = code(p, p);
        let (mut d, v) = decoder();
        let w = spec(&m, v, p);
        let r = d.decode(&mut m, p);
        agree(&r, w, p);
        reach!(w.0 == 3, "decoded");
        std::mem::forget(r);
        std::mem::forget(d);
    }
}
pub mod cache {
    //! Decoding at any address, after any earlier decode, gives what a decoder without a cache gives. A slot
    //! of the cache is only ever written by a decode, with that decode's result, so what a later decode
    //! can find is the result of one earlier decode: the two-decode obligation is the inductive step.
    use super::*;
    proofs! {
        fn second_decode [18] {
            let (a, b) = (pc(), pc());
            let mut m = code(a, b);
            let (mut d, v) = decoder();
            let w1 = spec(&m, v, a);
            let w2 = spec(&m, v, b);
            let r1 = d.decode_raw(&mut m, a);
            let r2 = d.decode_raw(&mut m, b);
            agree(&r1, w1, a);
            agree(&r2, w2, b);
            reach!(a == b && w1.0 == 3, "the same address again");
            reach!(a != b && w1.0 == 3 && w2.0 == 3 && (a ^ b) & 0x1ff == 0, "addresses that share a slot's low bits");
            std::mem::forget((r1, r2));
            std::mem::forget(d);
        }
        fn after_reset [18] {
            let (a, b) = (pc(), pc());
            let mut m = code(a, b);
            let (mut d, v) = decoder();
            let r1 = d.decode_raw(&mut m, a);
            let r0 = d.reset_instructions_cache();
            // the code changed
            m.h = [nd::u16(), nd::u16(), nd::u16(), nd::u16()];
            let w2 = spec(&m, v, b);
            let r2 = d.decode_raw(&mut m, b);
            ensure!(r0.is_ok(), "resetting the cache succeeds");
            agree(&r2, w2, b);
            reach!(a == b && w2.0 == 3, "the same address, with new code");
            std::mem::forget((r0, r1, r2));
            std::mem::forget(d);
        }
    }
}
