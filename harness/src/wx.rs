//! Contracts of the W^X wrapper, of page initialisation and of the memory helpers. The wrapped memory is only
//! its contract: any size, any flags, any answer; what reaches it is recorded.
use crate::mem::{inside, oob, PAGE};
use crate::nd;
use ckb_vm::error::OutOfBoundKind;
use ckb_vm::memory::wxorx::WXorXMemory;
use ckb_vm::memory::{FLAG_DIRTY, FLAG_EXECUTABLE, FLAG_FREEZED, FLAG_WXORX_BIT};
use ckb_vm::{Bytes, Error, Memory};

pub const E_IN: u8 = 91;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Call {
    pub op: u8,
    pub a: u64,
    pub v: u64,
    pub len: u64,
    pub ptr: usize,
}
pub const NOCALL: Call = Call { op: 0, a: 0, v: 0, len: 0, ptr: 0 };
/// The wrapped memory as its contract.
pub struct Inner {
    pub size: u64,
    /// flags of pages base, base + 1, base + 2, base + 3; any other page has `rest`
    pub base: u64,
    pub flags: [u8; 4],
    pub rest: u8,
    /// the call that passed the wrapper (and how many did)
    pub call: Call,
    pub n: u32,
    pub fail: bool,
    pub answer: u64,
    /// set_flag on the probed page: times, or-ed flags; and on any page outside [lo, hi)
    pub probe: u64,
    pub set: u8,
    pub nset: u32,
    pub lr: u64,
}
impl Inner {
    pub fn any(base: u64) -> Self {
        Inner {
            size: nd::below(1 << 40) * PAGE, base, flags: [nd::u8(), nd::u8(), nd::u8(), nd::u8()], rest: nd::u8(), call: NOCALL, n: 0,
            fail: nd::bool(), answer: nd::u64(), probe: nd::u64(), set: 0, nset: 0, lr: nd::u64(),
        }
    }
    pub fn flag(&self, page: u64) -> u8 {
        let d = page.wrapping_sub(self.base);
        if d < 4 { self.flags[d as usize] } else { self.rest }
    }
    fn got(&mut self, c: Call) -> Result<u64, Error> {
        self.call = c;
        self.n += 1;
        if self.fail { Err(Error::Asm(E_IN)) } else { Ok(self.answer) }
    }
}
impl Memory for Inner {
    type REG = u64;
    fn reset_memory(&mut self) -> Result<(), Error> { self.got(Call { op: 1, ..NOCALL }).map(|_| ()) }
    fn init_pages(&mut self, a: u64, size: u64, flags: u8, src: Option<Bytes>, off: u64) -> Result<(), Error> {
        let c = Call { op: 2, a, v: size, len: off ^ (flags as u64) << 56, ptr: match &src { Some(b) => b.as_ptr() as usize, None => 0 } };
        crate::nd::done(src);
        self.got(c).map(|_| ())
    }
    fn fetch_flag(&mut self, page: u64) -> Result<u8, Error> {
        if page < self.size / PAGE { Ok(self.flag(page)) } else { Err(Error::MemOutOfBound(page.wrapping_mul(PAGE), OutOfBoundKind::Memory)) }
    }
    fn set_flag(&mut self, page: u64, flag: u8) -> Result<(), Error> {
        if page >= self.size / PAGE {
            return Err(Error::MemOutOfBound(page.wrapping_mul(PAGE), OutOfBoundKind::Memory));
        }
        if page == self.probe {
            self.set |= flag;
            self.nset += 1;
        }
        let d = page.wrapping_sub(self.base);
        if d < 4 {
            self.flags[d as usize] |= flag;
        }
        Ok(())
    }
    fn clear_flag(&mut self, page: u64, flag: u8) -> Result<(), Error> { self.got(Call { op: 3, a: page, v: flag as u64, ..NOCALL }).map(|_| ()) }
    fn memory_size(&self) -> usize { self.size as usize }
    fn store_byte(&mut self, a: u64, len: u64, v: u8) -> Result<(), Error> { self.got(Call { op: 4, a, v: v as u64, len, ptr: 0 }).map(|_| ()) }
    fn store_bytes(&mut self, a: u64, b: &[u8]) -> Result<(), Error> { self.got(Call { op: 5, a, v: 0, len: b.len() as u64, ptr: b.as_ptr() as usize }).map(|_| ()) }
    fn load_bytes(&mut self, a: u64, len: u64) -> Result<Bytes, Error> { self.got(Call { op: 6, a, v: 0, len, ptr: 0 }).map(|_| Bytes::new()) }
    fn execute_load16(&mut self, a: u64) -> Result<u16, Error> { self.got(Call { op: 7, a, ..NOCALL }).map(|v| v as u16) }
    fn execute_load32(&mut self, a: u64) -> Result<u32, Error> { self.got(Call { op: 8, a, ..NOCALL }).map(|v| v as u32) }
    fn load8(&mut self, a: &u64) -> Result<u64, Error> { self.got(Call { op: 9, a: *a, ..NOCALL }) }
    fn load16(&mut self, a: &u64) -> Result<u64, Error> { self.got(Call { op: 10, a: *a, ..NOCALL }) }
    fn load32(&mut self, a: &u64) -> Result<u64, Error> { self.got(Call { op: 11, a: *a, ..NOCALL }) }
    fn load64(&mut self, a: &u64) -> Result<u64, Error> { self.got(Call { op: 12, a: *a, ..NOCALL }) }
    fn store8(&mut self, a: &u64, v: &u64) -> Result<(), Error> { self.got(Call { op: 13, a: *a, v: *v, ..NOCALL }).map(|_| ()) }
    fn store16(&mut self, a: &u64, v: &u64) -> Result<(), Error> { self.got(Call { op: 14, a: *a, v: *v, ..NOCALL }).map(|_| ()) }
    fn store32(&mut self, a: &u64, v: &u64) -> Result<(), Error> { self.got(Call { op: 15, a: *a, v: *v, ..NOCALL }).map(|_| ()) }
    fn store64(&mut self, a: &u64, v: &u64) -> Result<(), Error> { self.got(Call { op: 16, a: *a, v: *v, ..NOCALL }).map(|_| ()) }
    fn lr(&self) -> &u64 { &self.lr }
    fn set_lr(&mut self, v: &u64) { self.lr = *v }
}
/// the first page of the range whose W^X bit is not `want`
fn refused(m: &Inner, a: u64, len: u64, want: u8) -> Option<u64> {
    let mut k = a / PAGE;
    let last = (a + len - 1) / PAGE;
    while k <= last {
        if (m.flag(k) ^ want) & FLAG_WXORX_BIT != 0 {
            return Some(k);
        }
        k += 1;
    }
    None
}
fn is_perm<T>(r: &Result<T, Error>, page: u64) -> bool {
    matches!(r, Err(Error::MemWriteOnExecutablePage(p)) if *p == page)
}
fn asm<T>(r: &Result<T, Error>) -> bool {
    matches!(r, Err(Error::Asm(E_IN)))
}
/// the outcome of an access that needs `want` on all its pages and then is `call`
macro_rules! gate {
    ($w:ident, $r:ident, $a:expr, $len:expr, $want:expr, $call:expr, $ok:expr) => {{
        let i: &mut Inner = $w.inner_mut();
        if !inside($a, $len, i.size) {
            ensure!(oob(&$r) && i.n == 0, "an access that is not inside memory is refused and has no effect");
        } else if let Some(p) = refused(i, $a, $len, $want) {
            ensure!(is_perm(&$r, p) && i.n == 0, "an access to a page of the other kind is refused, names the first such page and has no effect");
        } else {
            ensure!(i.n == 1 && i.call == $call, "an allowed access reaches the wrapped memory once, unchanged");
            ensure!(if i.fail { asm(&$r) } else { $ok(&$r, i.answer) }, "its outcome is the wrapped memory's");
        }
        ensure!(i.nset == 0, "an access changes no flags");
    }};
}
macro_rules! wx_store {
    ($op:ident, $w:literal, $code:literal) => {{
        let (a, v) = (nd::u64(), nd::u64());
        let mut w = WXorXMemory::new(Inner::any(a / PAGE));
        let r = w.$op(&a, &v);
        gate!(w, r, a, $w, 0, (Call { op: $code, a, v, len: 0, ptr: 0 }), |r: &Result<(), Error>, _| r.is_ok());
        reach!(r.is_ok(), "stored");
        reach!(is_perm(&r, a / PAGE + ($w > 1) as u64), "refused");
        crate::nd::done(r);
    }};
}
macro_rules! wx_load {
    ($op:ident, $code:literal) => {{
        let a = nd::u64();
        let mut w = WXorXMemory::new(Inner::any(a / PAGE));
        let r = w.$op(&a);
        let i: &mut Inner = w.inner_mut();
        ensure!(i.n == 1 && i.nset == 0 && i.call == (Call { op: $code, a, v: 0, len: 0, ptr: 0 }), "a load reaches the wrapped memory once, unchanged");
        ensure!(if i.fail { asm(&r) } else { matches!(&r, Ok(x) if *x == i.answer) }, "its outcome is the wrapped memory's");
        reach!(r.is_ok(), "loaded");
        crate::nd::done(r);
    }};
}
macro_rules! wx_exec {
    ($op:ident, $w:literal, $code:literal, $t:ty) => {{
        let a = nd::u64();
        let mut w = WXorXMemory::new(Inner::any(a / PAGE));
        let r = w.$op(a);
        gate!(w, r, a, $w, FLAG_EXECUTABLE, (Call { op: $code, a, v: 0, len: 0, ptr: 0 }), |r: &Result<$t, Error>, x| matches!(r, Ok(y) if *y == x as $t));
        reach!(r.is_ok() && a % PAGE == PAGE - 2, "at the end of a page");
        reach!(is_perm(&r, a / PAGE), "refused");
        crate::nd::done(r);
    }};
}
proofs! {
    fn store8 [3] { wx_store!(store8, 1, 13) }
    fn store16 [4] { wx_store!(store16, 2, 14) }
    fn store32 [4] { wx_store!(store32, 4, 15) }
    fn store64 [4] { wx_store!(store64, 8, 16) }
    fn load8 [3] { wx_load!(load8, 9) }
    fn load16 [3] { wx_load!(load16, 10) }
    fn load32 [3] { wx_load!(load32, 11) }
    fn load64 [3] { wx_load!(load64, 12) }
    fn execute_load16 [4] { wx_exec!(execute_load16, 2, 7, u16) }
    fn execute_load32 [4] { wx_exec!(execute_load32, 4, 8, u32) }
    fn reservation [3] {
        let mut w = WXorXMemory::new(Inner::any(0));
        let (l0, l1) = (w.inner_mut().lr, nd::u64());
        ensure!(*w.lr() == l0, "the reservation is the wrapped memory's");
        w.set_lr(&l1);
        ensure!(*w.lr() == l1 && w.inner_mut().lr == l1, "setting the reservation sets the wrapped memory's");
        ensure!(w.memory_size() as u64 == w.inner_mut().size && w.inner_mut().n == 0, "the size is the wrapped memory's");
        let r = w.reset_memory();
        ensure!(w.inner_mut().n == 1 && w.inner_mut().call.op == 1 && r.is_ok() != w.inner_mut().fail, "a reset resets the wrapped memory");
        reach!(r.is_ok(), "reset");
        crate::nd::done(r);
    }
    fn flags [3] {
        let (k, f) = (nd::u64(), nd::u8());
        let mut w = WXorXMemory::new(Inner::any(k));
        let r = w.fetch_flag(k);
        let i = w.inner_mut();
        ensure!(if k < i.size / PAGE { matches!(&r, Ok(x) if *x == i.flags[0]) } else { oob(&r) }, "a page's flags are the wrapped memory's");
        i.probe = k;
        let s = w.set_flag(k, f);
        let i = w.inner_mut();
        ensure!(s.is_ok() == (k < i.size / PAGE) && (s.is_err() || (i.nset == 1 && i.set == f)), "setting flags sets the wrapped memory's");
        let c = w.clear_flag(k, f);
        let i = w.inner_mut();
        ensure!(i.n == 1 && i.call == (Call { op: 3, a: k, v: f as u64, len: 0, ptr: 0 }) && c.is_ok() != i.fail, "clearing flags clears the wrapped memory's");
        reach!(r.is_ok(), "in memory");
        crate::nd::done((r, s, c));
    }
    fn load_bytes [3] {
        let (a, n) = (nd::u64(), nd::u64());
        let mut w = WXorXMemory::new(Inner::any(0));
        let r = w.load_bytes(a, n);
        let i = w.inner_mut();
        ensure!(i.n == 1 && i.call == (Call { op: 6, a, v: 0, len: n, ptr: 0 }) && r.is_ok() != i.fail, "a bulk load reaches the wrapped memory once, unchanged");
        reach!(r.is_ok(), "loaded");
        crate::nd::done(r);
    }
}
pub mod helpers {
    use super::*;
    use ckb_vm::memory::{check_no_overflow, get_page_indices, round_page_down, round_page_up};
    proofs! {
        fn bounds [3] {
            let (a, n, s) = (nd::u64(), nd::u64(), nd::u64());
            let r = check_no_overflow(a, n, s);
            ensure!(r.is_ok() == (a < s && inside(a, n, s)), "a range is accepted exactly when it starts inside memory and all its bytes are inside");
            ensure!(r.is_ok() || oob(&r), "it is otherwise out of bounds");
            reach!(r.is_ok(), "accepted");
            crate::nd::done(r);
        }
        fn pages [3] {
            let (a, n) = (nd::u64(), nd::u64());
            nd::assume(n > 0 && a.checked_add(n).is_some());
            let (x, y) = get_page_indices(a, n);
            ensure!(x == a >> 12 && y == (a + (n - 1)) >> 12, "the pages of a range are those of its first and last bytes");
            reach!(x < y, "several pages");
        }
        fn rounding [3] {
            let x = nd::u64();
            let (d, u) = (round_page_down(x), round_page_up(x));
            ensure!(d % PAGE == 0 && d <= x && x - d < PAGE, "rounding down gives the start of the page");
            ensure!(u % PAGE == 0, "rounding up gives a page boundary");
            ensure!(if x <= u64::MAX - (PAGE - 1) { u >= x && u - x < PAGE } else { u == 0 }, "rounding up gives the next boundary (zero past the end of the address space)");
            reach!(u > x, "rounded up");
        }
        fn rounding_powers [3] {
            let (x, k) = (nd::u64(), nd::below(64));
            let r = 1u64 << k;
            let (d, u) = (ckb_vm::bits::rounddown(x, r), ckb_vm::bits::roundup(x, r));
            ensure!(d & (r - 1) == 0 && d <= x && x - d < r, "rounding down gives the largest multiple not above");
            ensure!(u & (r - 1) == 0, "rounding up gives a multiple");
            ensure!(if x <= u64::MAX - (r - 1) { u >= x && u - x < r } else { u == 0 }, "rounding up gives the smallest multiple not below");
            reach!(u > x, "rounded up");
        }
    }
}
/// Page initialisation over a memory whose bulk stores are only their contract, seen at one probed byte.
pub mod fill {
    use super::*;
    use ckb_vm::memory::fill_page_data;
    pub struct Probe {
        q: u64,
        byte: u8,
        hits: u32,
        lo: u64,
        hi: u64,
        stray: bool,
        fail_at: u64,
        lr: u64,
    }
    impl Probe {
        fn touch(&mut self, a: u64, len: u64) -> Result<bool, Error> {
            match a.checked_add(len) {
                Some(e) if a >= self.lo && e <= self.hi => {}
                _ => self.stray = true,
            }
            if a <= self.fail_at && self.fail_at - a < len {
                return Err(Error::Asm(E_IN));
            }
            Ok(self.q >= a && self.q - a < len)
        }
        fn off<T>(&mut self) -> Result<T, Error> {
            self.stray = true;
            Err(Error::Asm(E_IN))
        }
    }
    impl Memory for Probe {
        type REG = u64;
        fn reset_memory(&mut self) -> Result<(), Error> { self.off() }
        fn init_pages(&mut self, _: u64, _: u64, _: u8, _: Option<Bytes>, _: u64) -> Result<(), Error> { self.off() }
        fn fetch_flag(&mut self, _: u64) -> Result<u8, Error> { self.off() }
        fn set_flag(&mut self, _: u64, _: u8) -> Result<(), Error> { self.off() }
        fn clear_flag(&mut self, _: u64, _: u8) -> Result<(), Error> { self.off() }
        fn memory_size(&self) -> usize { usize::MAX }
        fn store_byte(&mut self, a: u64, len: u64, v: u8) -> Result<(), Error> {
            if self.touch(a, len)? {
                self.byte = v;
                self.hits += 1;
            }
            Ok(())
        }
        fn store_bytes(&mut self, a: u64, b: &[u8]) -> Result<(), Error> {
            if self.touch(a, b.len() as u64)? {
                self.byte = b[(self.q - a) as usize];
                self.hits += 1;
            }
            Ok(())
        }
        fn load_bytes(&mut self, _: u64, _: u64) -> Result<Bytes, Error> { self.off() }
        fn execute_load16(&mut self, _: u64) -> Result<u16, Error> { self.off() }
        fn execute_load32(&mut self, _: u64) -> Result<u32, Error> { self.off() }
        fn load8(&mut self, _: &u64) -> Result<u64, Error> { self.off() }
        fn load16(&mut self, _: &u64) -> Result<u64, Error> { self.off() }
        fn load32(&mut self, _: &u64) -> Result<u64, Error> { self.off() }
        fn load64(&mut self, _: &u64) -> Result<u64, Error> { self.off() }
        fn store8(&mut self, _: &u64, _: &u64) -> Result<(), Error> { self.off() }
        fn store16(&mut self, _: &u64, _: &u64) -> Result<(), Error> { self.off() }
        fn store32(&mut self, _: &u64, _: &u64) -> Result<(), Error> { self.off() }
        fn store64(&mut self, _: &u64, _: &u64) -> Result<(), Error> { self.off() }
        fn lr(&self) -> &u64 { &self.lr }
        fn set_lr(&mut self, _: &u64) { self.stray = true }
    }
    proofs! {
        fn contents [3] {
            let (a, size, off, q) = (nd::u64(), nd::u64(), nd::u64(), nd::u64());
            nd::assume(off <= size && a.checked_add(size).is_some());
            let some = nd::bool();
            let src = crate::mem::any_slice(1 << 40);
            let b0 = nd::u8();
            let mut m = Probe { q, byte: b0, hits: 0, lo: a, hi: a + size, stray: false, fail_at: nd::u64(), lr: 0 };
            let r = fill_page_data(&mut m, a, size, if some { Some(Bytes::from_static(src)) } else { None }, off);
            ensure!(!m.stray, "only bytes of the range are written");
            let within = q >= a && q - a < size;
            let want = if !within {
                b0
            } else if q - a >= off && some && q - a - off < src.len() as u64 {
                src[(q - a - off) as usize]
            } else {
                0
            };
            let f = m.fail_at >= a && m.fail_at - a < size;
            ensure!(r.is_ok() == !f, "it fails exactly when a store fails");
            ensure!(f || m.byte == want, "every byte of the range is the source's, at the offset, or zero, and no other byte changes");
            ensure!(f || m.hits == within as u32, "every byte of the range is written once");
            reach!(r.is_ok() && within && some && q - a > off && want == 7, "source byte");
            reach!(r.is_ok() && within && off > 0 && off < 100 && q - a > off + src.len() as u64, "zero after the source");
            crate::nd::done(r);
        }
    }
}
/// Operations on ranges of several pages (at most four: bounded).
pub mod bulk {
    use super::*;
    use ckb_vm::memory::{check_permission, set_dirty};
    fn is_frozen<T>(r: &Result<T, Error>, page: u64) -> bool {
        matches!(r, Err(Error::MemWriteOnFreezedPage(p)) if *p == page)
    }
    fn is_unaligned<T>(r: &Result<T, Error>, a: u64) -> bool {
        matches!(r, Err(Error::MemPageUnalignedAccess(p)) if *p == a)
    }
    fn empty(w: &mut WXorXMemory<Inner>, r: &Result<(), Error>) {
        ensure!(r.is_ok() && w.inner_mut().n == 0, "storing nothing does nothing");
    }
    proofs! {
        fn store_bytes [6] {
            let a = nd::u64();
            let v = crate::mem::any_slice(3 * PAGE);
            let mut w = WXorXMemory::new(Inner::any(a / PAGE));
            let r = w.store_bytes(a, v);
            let len = v.len() as u64;
            if len == 0 {
                empty(&mut w, &r);
            } else {
                gate!(w, r, a, len, 0, (Call { op: 5, a, v: 0, len, ptr: v.as_ptr() as usize }), |r: &Result<(), Error>, _| r.is_ok());
            }
            reach!(r.is_ok() && len > 2 * PAGE, "stored");
            reach!(is_perm(&r, a / PAGE + 3), "refused");
            nd::done(r);
        }
        fn store_byte [6] {
            let (a, len, v) = (nd::u64(), nd::below(3 * PAGE + 1), nd::u8());
            let mut w = WXorXMemory::new(Inner::any(a / PAGE));
            let r = w.store_byte(a, len, v);
            if len == 0 {
                empty(&mut w, &r);
            } else {
                gate!(w, r, a, len, 0, (Call { op: 4, a, v: v as u64, len, ptr: 0 }), |r: &Result<(), Error>, _| r.is_ok());
            }
            reach!(r.is_ok() && len > 2 * PAGE, "stored");
            reach!(is_perm(&r, a / PAGE + 3), "refused");
            nd::done(r);
        }
        fn init_pages [6] {
            let (a, flags, off) = (nd::u64(), nd::u8(), nd::u64());
            // sizes: any number of bytes up to four pages, or a huge one
            let size = if nd::bool() { nd::below(4 * PAGE + 1) } else { nd::u64() };
            let some = nd::bool();
            let src = crate::mem::any_slice(4 * PAGE);
            let mut w = WXorXMemory::new(Inner::any(a / PAGE));
            nd::assume(size <= 4 * PAGE || size > w.inner_mut().size);
            let p = w.inner_mut().probe;
            let f0 = w.inner_mut().flags;
            let r = w.init_pages(a, size, flags, if some { Some(Bytes::from_static(src)) } else { None }, off);
            let i = w.inner_mut();
            if a % PAGE != 0 {
                ensure!(is_unaligned(&r, a) && i.n == 0 && i.nset == 0, "an unaligned address is refused without effect");
            } else if size % PAGE != 0 {
                ensure!(is_unaligned(&r, a.wrapping_add(size)) && i.n == 0 && i.nset == 0, "an unaligned size is refused without effect");
            } else if !inside(a, size, i.size) {
                ensure!(oob(&r) && i.n == 0 && i.nset == 0, "pages that are not inside memory are refused without effect");
            } else if off > size {
                ensure!(matches!(&r, Err(Error::MemOutOfBound(x, OutOfBoundKind::ExternalData)) if *x == off) && i.n == 0 && i.nset == 0, "an offset beyond the pages is refused without effect");
            } else {
                let n = size / PAGE;
                let mut k = 0;
                while k < n && f0[k as usize & 3] & FLAG_FREEZED == 0 {
                    k += 1;
                }
                if k < n {
                    ensure!(is_frozen(&r, a / PAGE + k) && i.n == 0, "a frozen page is never initialised again: no contents change");
                    ensure!(i.nset == 0 || (p >= a / PAGE && p < a / PAGE + k), "a refused initialisation changes no flags of the frozen page or after it");
                } else {
                    let hit = p >= a / PAGE && p < a / PAGE + n;
                    ensure!(i.nset == hit as u32 && (!hit || i.set == flags), "exactly the pages of the range get the flags");
                    ensure!(i.n == 1 && i.call == (Call { op: 2, a, v: size, len: off ^ (flags as u64) << 56, ptr: if some { src.as_ptr() as usize } else { 0 } }), "the contents are initialised by the wrapped memory, with the same arguments");
                    ensure!(r.is_ok() != i.fail, "the outcome is the wrapped memory's");
                }
            }
            reach!(r.is_ok() && size == 4 * PAGE, "initialised");
            reach!(is_frozen(&r, a / PAGE + 2), "frozen");
            nd::done(r);
        }
        fn permission [6] {
            let (k, n, want) = (nd::u64(), 1 + nd::below(4), nd::u8());
            nd::assume(k < 1 << 40);
            let mut m = Inner::any(k);
            nd::assume(k + n < m.size / PAGE);
            let r = check_permission(&mut m, &(k, (k + n).wrapping_sub(1)), want);
            match refused(&m, k * PAGE, n * PAGE, want & FLAG_WXORX_BIT) {
                Some(p) => ensure!(is_perm(&r, p), "the first page of the other kind is reported"),
                None => ensure!(r.is_ok(), "pages of the right kind are accepted"),
            }
            ensure!(m.n == 0 && m.nset == 0, "checking changes nothing");
            reach!(r.is_ok() && n == 4, "accepted");
            nd::done(r);
        }
        fn dirty [6] {
            let (k, n) = (nd::u64(), 1 + nd::below(4));
            nd::assume(k < 1 << 40);
            let mut m = Inner::any(k);
            nd::assume(k + n < m.size / PAGE);
            let r = set_dirty(&mut m, &(k, k + n - 1));
            let hit = m.probe >= k && m.probe < k + n;
            ensure!(r.is_ok() && m.nset == hit as u32 && (!hit || m.set == FLAG_DIRTY), "exactly the pages of the range become dirty");
            reach!(hit && n == 4, "dirty");
            nd::done(r);
        }
    }
}
