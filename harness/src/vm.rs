//! Contracts of the machine around the instructions: cycles, stepping, running, environment calls, reset,
//! program loading and the initial stack. The memory is only its contract (`Log`): any size, any failure, and a
//! record of every call; the decoder, syscalls, debugger and cost function are arbitrary too.
use crate::mem::PAGE;
use crate::nd;
use crate::wx::{Call, NOCALL};
use ckb_vm::decoder::InstDecoder;
use ckb_vm::elf::{LoadingAction, ProgramMetadata};
use ckb_vm::machine::{Pause, VERSION1};
use ckb_vm::registers::{A0, A7, SP};
use ckb_vm::{
    Bytes, CoreMachine, Debugger, DefaultCoreMachine, DefaultMachine, DefaultMachineBuilder, Error, Instruction, Machine, Memory, Register,
    SupportMachine, Syscalls,
};

pub const E_MEM: u8 = 61;
pub const E_DEC: u8 = 62;
pub const E_SYS: u8 = 63;
pub const E_DBG: u8 = 64;
pub const E_STEP: u8 = 65;
pub const E_EXEC: u8 = 66;
const N: usize = 12;

/// Memory as a record of what was asked of it. Call number `fail` (and every later one) fails.
pub struct Log {
    pub size: u64,
    pub log: [Call; N],
    pub n: usize,
    pub fail: usize,
    pub lr: u64,
}
impl Log {
    pub fn any() -> Self {
        Log { size: nd::u64(), log: [NOCALL; N], n: 0, fail: nd::below(N as u64 + 1) as usize, lr: nd::u64() }
    }
    fn got(&mut self, c: Call) -> Result<(), Error> {
        if self.n < N {
            self.log[self.n] = c;
        }
        self.n += 1;
        if self.n > self.fail { Err(Error::Asm(E_MEM)) } else { Ok(()) }
    }
}
impl Memory for Log {
    type REG = u64;
    fn reset_memory(&mut self) -> Result<(), Error> { self.got(Call { op: 1, ..NOCALL }) }
    fn init_pages(&mut self, a: u64, size: u64, flags: u8, src: Option<Bytes>, off: u64) -> Result<(), Error> {
        let (ptr, len) = match &src { Some(b) => (b.as_ptr() as usize, b.len() as u64), None => (0, u64::MAX) };
        nd::done(src);
        self.got(Call { op: 2, a, v: size, len: off ^ (flags as u64) << 56, ptr: ptr.wrapping_add((len as usize) << 32) })
    }
    fn fetch_flag(&mut self, page: u64) -> Result<u8, Error> { self.got(Call { op: 17, a: page, ..NOCALL }).map(|_| 0) }
    fn set_flag(&mut self, page: u64, flag: u8) -> Result<(), Error> { self.got(Call { op: 18, a: page, v: flag as u64, ..NOCALL }) }
    fn clear_flag(&mut self, page: u64, flag: u8) -> Result<(), Error> { self.got(Call { op: 3, a: page, v: flag as u64, ..NOCALL }) }
    fn memory_size(&self) -> usize { self.size as usize }
    fn store_byte(&mut self, a: u64, len: u64, v: u8) -> Result<(), Error> { self.got(Call { op: 4, a, v: v as u64, len, ptr: 0 }) }
    fn store_bytes(&mut self, a: u64, b: &[u8]) -> Result<(), Error> { self.got(Call { op: 5, a, v: 0, len: b.len() as u64, ptr: b.as_ptr() as usize }) }
    fn load_bytes(&mut self, a: u64, len: u64) -> Result<Bytes, Error> { self.got(Call { op: 6, a, v: 0, len, ptr: 0 }).map(|_| Bytes::new()) }
    fn execute_load16(&mut self, a: u64) -> Result<u16, Error> { self.got(Call { op: 7, a, ..NOCALL }).map(|_| 0) }
    fn execute_load32(&mut self, a: u64) -> Result<u32, Error> { self.got(Call { op: 8, a, ..NOCALL }).map(|_| 0) }
    fn load8(&mut self, a: &u64) -> Result<u64, Error> { self.got(Call { op: 9, a: *a, ..NOCALL }).map(|_| 0) }
    fn load16(&mut self, a: &u64) -> Result<u64, Error> { self.got(Call { op: 10, a: *a, ..NOCALL }).map(|_| 0) }
    fn load32(&mut self, a: &u64) -> Result<u64, Error> { self.got(Call { op: 11, a: *a, ..NOCALL }).map(|_| 0) }
    fn load64(&mut self, a: &u64) -> Result<u64, Error> { self.got(Call { op: 12, a: *a, ..NOCALL }).map(|_| 0) }
    fn store8(&mut self, a: &u64, v: &u64) -> Result<(), Error> { self.got(Call { op: 13, a: *a, v: *v, ..NOCALL }) }
    fn store16(&mut self, a: &u64, v: &u64) -> Result<(), Error> { self.got(Call { op: 14, a: *a, v: *v, ..NOCALL }) }
    fn store32(&mut self, a: &u64, v: &u64) -> Result<(), Error> { self.got(Call { op: 15, a: *a, v: *v, ..NOCALL }) }
    fn store64(&mut self, a: &u64, v: &u64) -> Result<(), Error> { self.got(Call { op: 16, a: *a, v: *v, ..NOCALL }) }
    fn lr(&self) -> &u64 { &self.lr }
    fn set_lr(&mut self, v: &u64) { self.lr = *v }
}
pub type Core = DefaultCoreMachine<u64, Log>;

/// An arbitrary core machine; the committed pc is `pc`, the pending one `next`.
pub struct St {
    pub pc: u64,
    pub next: u64,
    pub cycles: u64,
    pub max: u64,
    pub running: bool,
    pub isa: u8,
    pub ver: u32,
    /// one register with its value (any register)
    pub k: usize,
    pub x: u64,
    pub lr: u64,
    pub size: u64,
}
pub fn core(ver: u32) -> (Core, St) {
    let m = Log::any();
    let s = St {
        pc: nd::u64(), next: nd::u64(), cycles: nd::u64(), max: nd::u64(), running: nd::bool(), isa: nd::u8(), ver,
        k: nd::below(32) as usize, x: nd::u64(), lr: m.lr, size: m.size,
    };
    let mut c = Core::new_with_memory(s.isa, s.ver, s.max, m);
    c.update_pc(s.pc);
    c.commit_pc();
    c.update_pc(s.next);
    c.set_cycles(s.cycles);
    c.set_running(s.running);
    c.set_register(s.k, s.x);
    (c, s)
}
/// everything but the cycle count is as in `s`
fn same(c: &Core, s: &St) -> bool {
    *c.pc() == s.pc && c.max_cycles() == s.max && c.running() == s.running && c.isa() == s.isa && c.version() == s.ver
        && c.registers()[s.k] == s.x && *c.memory().lr() == s.lr && c.memory().size == s.size
}
pub fn code<T>(r: &Result<T, Error>) -> u8 {
    match r {
        Ok(_) => 0,
        Err(Error::Asm(c)) => *c,
        Err(_) => 255,
    }
}

/// A decoder that is any function: what it was asked, what it answers.
pub struct Dec {
    pub asked: u64,
    pub n: u32,
    pub fail: bool,
    pub inst: Instruction,
    pub resets: u32,
    /// resets had happened before the last decode / before a step
    pub fail_reset: bool,
}
impl InstDecoder for Dec {
    fn decode<M: Memory>(&mut self, _: &mut M, pc: u64) -> Result<Instruction, Error> {
        self.asked = pc;
        self.n += 1;
        if self.fail { Err(Error::Asm(E_DEC)) } else { Ok(self.inst) }
    }
    fn reset_instructions_cache(&mut self) -> Result<(), Error> {
        self.resets += 1;
        if self.fail_reset { Err(Error::Asm(E_DEC)) } else { Ok(()) }
    }
}

// ghost state of the stubs below (single-threaded)
pub struct Ghost {
    /// executed: how often, which instruction, cycles and pc at that time
    pub n: u32,
    pub inst: u64,
    pub cycles: u64,
    pub pc: u64,
    pub res: u8,
    pub cost: u64,
    pub costed: u64,
    pub ncost: u32,
    /// run loop: number of steps after which the machine stops, and what happens on the way
    pub stop: u32,
    pub err_at: u32,
    pub pause_at: u32,
    pub reset_at: u32,
    pub seen_resets: u32,
}
const G0: Ghost = Ghost { n: 0, inst: 0, cycles: 0, pc: 0, res: 0, cost: 0, costed: 0, ncost: 0, stop: 0, err_at: 0, pause_at: 0, reset_at: 0, seen_resets: 0 };
#[cfg(kani)]
static mut GHOST: Ghost = G0;
#[cfg(not(kani))]
thread_local! { static GHOST: std::cell::UnsafeCell<Ghost> = std::cell::UnsafeCell::new(G0); }
pub fn g() -> &'static mut Ghost {
    #[cfg(kani)]
    unsafe { &mut *std::ptr::addr_of_mut!(GHOST) }
    #[cfg(not(kani))]
    GHOST.with(|g| unsafe { &mut *g.get() })
}
fn cost(i: Instruction) -> u64 {
    g().costed = i;
    g().ncost += 1;
    g().cost
}
/// Stands for `execute`, whose contract is P01-P07: any effect, any result; here only that it ran.
pub fn executed<Mac: Machine>(i: Instruction, m: &mut Mac) -> Result<(), Error> {
    g().n += 1;
    g().inst = i;
    g().pc = m.pc().to_u64();
    if g().res == 0 { Ok(()) } else { Err(Error::Asm(g().res)) }
}
/// natively the executed instruction is an ebreak, seen by this debugger
struct Dbg(u32);
impl Debugger<Core> for Dbg {
    fn initialize(&mut self, m: &mut Core) -> Result<(), Error> {
        g().inst = g().inst * 16 + 9;
        g().n += 1;
        m.set_running(true);
        if self.0 & 2 != 0 { Err(Error::Asm(E_DBG)) } else { Ok(()) }
    }
    fn ebreak(&mut self, m: &mut Core) -> Result<(), Error> {
        g().n += 1;
        g().pc = *m.pc();
        g().cycles = m.cycles();
        if self.0 & 1 != 0 { Err(Error::Asm(E_DBG)) } else if g().res != 0 { Err(Error::Asm(g().res)) } else { Ok(()) }
    }
}
/// A syscall that is any function of its calls: number `id` in the list.
struct Sys {
    id: u64,
    /// 0: not mine, 1: processed, 2: error
    say: u8,
    cycles: u64,
    init_err: bool,
}
impl Syscalls<Core> for Sys {
    fn initialize(&mut self, _: &mut Core) -> Result<(), Error> {
        g().inst = g().inst * 16 + self.id;
        g().n += 1;
        if self.init_err { Err(Error::Asm(E_SYS)) } else { Ok(()) }
    }
    fn ecall(&mut self, m: &mut Core) -> Result<bool, Error> {
        g().inst = g().inst * 16 + self.id;
        g().n += 1;
        m.set_cycles(self.cycles);
        match self.say {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(Error::Asm(E_SYS)),
        }
    }
}
fn reset_ghost() {
    *g() = G0;
}

/// environment call with `n` syscalls
fn ecall_order(n: u64) {
    reset_ghost();
    let (mut c, s) = core(nd::u32());
    let a7 = nd::u64();
    nd::assume(a7 != 93);
    c.set_register(A7, a7);
    let (say, cyc) = ([nd::below(3) as u8, nd::below(3) as u8, nd::below(3) as u8], [nd::u64(), nd::u64(), nd::u64()]);
    let mut b = DefaultMachineBuilder::new(c);
    let mut i = 0;
    while i < 3 {
        if i < n {
            b = b.syscall(Box::new(Sys { id: i + 1, say: say[i as usize], cycles: cyc[i as usize], init_err: false }));
        }
        i += 1;
    }
    let mut m: DefaultMachine<Core> = b.build();
    let r = m.ecall();
    // the first one that does not pass it on decides
    let mut i = 0;
    let mut trace = 0;
    while i < n && say[i as usize] == 0 {
        trace = trace * 16 + i + 1;
        i += 1;
    }
    if i == n {
        ensure!(matches!(r, Err(Error::InvalidEcall(x)) if x == a7) && g().inst == trace, "a call nobody processes is refused with its number, after everyone was asked in order");
    } else {
        ensure!(g().inst == trace * 16 + i + 1, "the syscalls are asked in order, and none after the one that processed it or failed");
        if say[i as usize] == 2 {
            ensure!(code(&r) == E_SYS, "its error is returned");
        } else if cyc[i as usize] > s.max {
            ensure!(matches!(r, Err(Error::CyclesExceeded)), "a syscall that spends more cycles than allowed stops the machine");
        } else {
            ensure!(r.is_ok(), "a processed call succeeds");
        }
    }
    ensure!(m.exit_code() == 0 && m.running() == s.running && *m.pc() == s.pc, "the machine neither stops nor moves");
    reach!(i == n, "nobody processes it");
    reach!(n == 0 || (r.is_ok() && i == n - 1), "the last processes it");
    nd::done(r);
    nd::done(m);
}

crate::proofs! {
    /// construction and accessors
    fn accessors [34] {
        let (mut c, s) = core(nd::u32());
        ensure!(same(&c, &s) && c.cycles() == s.cycles, "a machine is what it was built from; a pending pc is not visible");
        c.commit_pc();
        ensure!(*c.pc() == s.next, "committing makes the pending pc current");
        let (i, v, k) = (nd::below(32) as usize, nd::u64(), nd::below(32) as usize);
        let old = c.registers()[k];
        c.set_register(i, v);
        ensure!(c.registers()[k] == if i == k { v } else { old } && c.registers().len() == 32, "exactly the named register changes");
        let v = nd::u64();
        c.set_max_cycles(v);
        SupportMachine::set_max_cycles(&mut c, v);
        ensure!(c.max_cycles() == v && c.cycles() == s.cycles, "the limit is what was set");
        ensure!(c.memory().n == 0 && c.memory_mut().n == 0, "memory is not touched");
        reach!(i == k, "same register");
        nd::done(c);
    }
    /// cycle accounting
    fn add_cycles [34] {
        let (mut c, s) = core(nd::u32());
        let d = nd::u64();
        let r = c.add_cycles(d);
        match s.cycles.checked_add(d) {
            None => ensure!(matches!(r, Err(Error::CyclesOverflow)) && c.cycles() == s.cycles, "an overflowing count is refused and not charged"),
            Some(t) if t > s.max => ensure!(matches!(r, Err(Error::CyclesExceeded)) && c.cycles() == s.cycles, "a count beyond the limit is refused and not charged"),
            Some(t) => ensure!(r.is_ok() && c.cycles() == t && t <= c.max_cycles(), "a count within the limit is charged exactly"),
        }
        ensure!(same(&c, &s) && c.memory().n == 0, "nothing else changes");
        reach!(r.is_ok() && d > 0 && c.cycles() == s.max, "exactly at the limit");
        nd::done(r);
        nd::done(c);
    }
    fn add_cycles_no_checking [34] {
        let (mut c, s) = core(nd::u32());
        let d = nd::u64();
        let r = c.add_cycles_no_checking(d);
        match s.cycles.checked_add(d) {
            None => ensure!(matches!(r, Err(Error::CyclesOverflow)) && c.cycles() == s.cycles, "an overflowing count is refused and not charged"),
            Some(t) => ensure!(r.is_ok() && c.cycles() == t, "any other count is charged exactly"),
        }
        ensure!(same(&c, &s) && c.memory().n == 0, "nothing else changes");
        reach!(r.is_ok() && c.cycles() > s.max, "beyond the limit");
        nd::done(r);
        nd::done(c);
    }
    /// one step: decode at the pc, charge, execute
    #[cfg_attr(kani, kani::stub(ckb_vm::instructions::execute::execute, executed))]
    fn step [34] {
        reset_ghost();
        let (c, s) = core(nd::u32());
        g().cost = nd::u64();
        g().res = if nd::bool() { E_EXEC } else { 0 };
        let inst = if cfg!(kani) { nd::u64() } else { ckb_vm::instructions::set_instruction_length_4(ckb_vm::instructions::blank_instruction(ckb_vm::ckb_vm_definitions::instructions::OP_EBREAK)) };
        let mut d = Dec { asked: 0, n: 0, fail: nd::bool(), inst, resets: 0, fail_reset: nd::bool() };
        let b = DefaultMachineBuilder::new(c).instruction_cycle_func(Box::new(|i| cost(i)));
        #[cfg(not(kani))]
        let b = b.debugger(Box::new(Dbg(0)));
        let mut m: DefaultMachine<Core> = b.build();
        let r = m.step(&mut d);
        let x = g();
        ensure!(d.n == 1 && d.asked == s.pc && d.resets == 0, "the instruction at the current pc is decoded, once");
        if d.fail {
            ensure!(code(&r) == E_DEC && x.n == 0 && x.ncost == 0 && m.cycles() == s.cycles, "an instruction that does not decode is neither charged nor executed");
        } else {
            ensure!(x.ncost == 1 && x.costed == inst, "the cost is asked for the decoded instruction, once");
            match s.cycles.checked_add(x.cost) {
                None => ensure!(matches!(r, Err(Error::CyclesOverflow)) && x.n == 0 && m.cycles() == s.cycles, "an overflowing cost stops the machine before the instruction"),
                Some(t) if t > s.max => ensure!(matches!(r, Err(Error::CyclesExceeded)) && x.n == 0 && m.cycles() == s.cycles, "a cost beyond the limit stops the machine before the instruction"),
                Some(t) => ensure!(x.n == 1 && (!cfg!(kani) || x.inst == inst) && x.pc == s.pc && code(&r) == x.res && m.cycles() == t, "otherwise it is charged exactly and executed once"),
            }
        }
        reach!(r.is_ok() && m.cycles() > s.cycles, "executed");
        reach!(matches!(r, Err(Error::CyclesExceeded)), "too expensive");
        nd::done(r);
        nd::done(m);
    }
    /// environment call: exit
    fn exit [34] {
        reset_ghost();
        let (mut c, s) = core(nd::u32());
        let a0 = nd::u64();
        c.set_register(A7, 93);
        c.set_register(A0, a0);
        let y = Sys { id: 1, say: nd::u8(), cycles: nd::u64(), init_err: false };
        let mut m: DefaultMachine<Core> = DefaultMachineBuilder::new(c).syscall(Box::new(y)).build();
        ensure!(m.exit_code() == 0, "the exit code is 0 at first");
        let r = m.ecall();
        ensure!(r.is_ok() && m.exit_code() == a0 as u8 as i8 && !m.running(), "exit stops the machine with the low byte of a0");
        ensure!(g().n == 0 && m.cycles() == s.cycles && *m.pc() == s.pc && m.memory().n == 0, "and does nothing else");
        reach!(m.exit_code() == -1, "exit code -1");
        nd::done(r);
        nd::done(m);
    }
    fn ecall_order0 [6] { ecall_order(0) }
    fn ecall_order1 [6] { ecall_order(1) }
    fn ecall_order2 [6] { ecall_order(2) }
    fn ecall_order3 [6] { ecall_order(3) }
    /// breakpoint
    fn ebreak [34] {
        reset_ghost();
        let (c, s) = core(nd::u32());
        let (with, fail) = (nd::bool(), nd::bool());
        let mut b = DefaultMachineBuilder::new(c);
        if with {
            b = b.debugger(Box::new(Dbg(fail as u32)));
        }
        let mut m: DefaultMachine<Core> = b.build();
        let r = m.ebreak();
        if with {
            ensure!(g().n == 1 && code(&r) == if fail { E_DBG } else { 0 }, "a breakpoint goes to the debugger, once, and its result is returned");
        } else {
            ensure!(g().n == 0 && r.is_ok(), "without a debugger a breakpoint does nothing");
        }
        ensure!(same(m.inner_mut(), &s) && m.cycles() == s.cycles && m.exit_code() == 0, "nothing else changes");
        reach!(with && r.is_ok(), "debugger");
        nd::done(r);
        nd::done(m);
    }
    /// reset
    fn reset [34] {
        let (mut c, s) = core(nd::u32());
        let max = nd::u64();
        ensure!(!c.reset_signal(), "a new machine has not been reset");
        let r = c.reset(max);
        ensure!(c.memory().n == 1 && c.memory().log[0].op == 1, "the memory is reset, once");
        if c.memory().fail == 0 {
            ensure!(code(&r) == E_MEM, "a failing memory reset is reported");
        } else {
            let k = nd::below(32) as usize;
            ensure!(r.is_ok() && c.registers()[k] == 0 && *c.pc() == 0 && c.cycles() == 0, "registers, pc and cycles are zero");
            ensure!(c.max_cycles() == max && *c.memory().lr() == u64::MAX, "the limit is the given one, and no address is reserved");
            ensure!(c.isa() == s.isa && c.version() == s.ver, "the machine keeps its kind");
            ensure!(c.reset_signal(), "decoders are told");
            ensure!(!c.reset_signal(), "once");
        }
        reach!(r.is_ok(), "reset");
        nd::done(r);
        nd::done(c);
    }
    /// the parts of a default machine delegate to its core
    fn delegate [34] {
        let (c, s) = core(nd::u32());
        let mut m: DefaultMachine<Core> = DefaultMachineBuilder::new(c).build();
        ensure!(*m.pc() == s.pc && m.max_cycles() == s.max && m.running() == s.running && m.isa() == s.isa && m.version() == s.ver && m.cycles() == s.cycles && m.registers()[s.k] == s.x, "every accessor is the core's");
        let (a, b, v, i) = (nd::u64(), nd::u64(), nd::u64(), nd::below(32) as usize);
        m.set_cycles(a);
        m.set_max_cycles(b);
        m.set_running(!s.running);
        m.set_register(i, v);
        m.update_pc(a);
        ensure!(*m.pc() == s.pc, "a pending pc is not visible");
        m.commit_pc();
        let c = m.inner_mut();
        ensure!(c.cycles() == a && c.max_cycles() == b && c.running() != s.running && c.registers()[i] == v && *c.pc() == a, "every mutator is the core's");
        let x = nd::u64();
        let r = m.reset(x);
        ensure!(r.is_ok() == (m.memory().fail > 0) && m.memory().n == 1, "reset is the core's");
        if r.is_ok() {
            ensure!(m.max_cycles() == x && m.cycles() == 0 && m.reset_signal() && !m.reset_signal(), "reset is the core's");
        }
        reach!(r.is_ok(), "reset");
        nd::done(r);
        nd::done(m);
    }
}
