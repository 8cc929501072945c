//! Contracts of the memories, against an ideal memory: bytes and page flags indexed by address and page number,
//! a size and a reservation. Every operation is checked at one arbitrary probed byte and one arbitrary probed
//! page, for any contents and any size, so each postcondition is a statement about every byte and every page.
use crate::nd;
use ckb_vm::error::OutOfBoundKind;
use ckb_vm::memory::{flat::FlatMemory, sparse::SparseMemory, FLAG_DIRTY};
use ckb_vm::{Error, Memory, RISCV_PAGESIZE};

pub const PAGE: u64 = RISCV_PAGESIZE as u64;

/// `len` bytes at `addr` are in a memory of `size` bytes
pub fn inside(addr: u64, len: u64, size: u64) -> bool {
    len <= size && addr <= size - len
}
pub fn oob<T>(r: &Result<T, Error>) -> bool {
    matches!(r, Err(Error::MemOutOfBound(_, OutOfBoundKind::Memory)))
}
/// the value of an operation that must succeed (without the drop glue and formatting of `unwrap`)
pub fn val<T: Default>(r: Result<T, Error>) -> T {
    match r {
        Ok(v) => v,
        Err(e) => {
            crate::nd::done(e);
            ensure!(false, "an operation inside memory succeeds");
            T::default()
        }
    }
}
/// `n` arbitrary bytes
pub fn any_bytes(n: u64) -> Vec<u8> {
    #[cfg(kani)]
    {
        let mut v = Vec::with_capacity(n as usize);
        unsafe { v.set_len(n as usize) };
        v
    }
    #[cfg(not(kani))]
    {
        let mut x = 0x9e37_79b9_7f4a_7c15u64;
        (0..n).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x as u8 }).collect()
    }
}
/// arbitrary bytes, of any length up to `max`
pub fn any_slice(max: u64) -> &'static [u8] {
    #[cfg(kani)]
    {
        Box::leak(any_bytes(nd::below(max + 1)).into_boxed_slice())
    }
    #[cfg(not(kani))]
    {
        static B: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
        &B.get_or_init(|| any_bytes(20000))[..(nd::below(max + 1) % 20000) as usize]
    }
}
pub const MAX_PAGES: u64 = 1 << 18;
pub fn pages() -> u64 {
    #[cfg(kani)]
    { 1 + nd::below(MAX_PAGES) }
    #[cfg(not(kani))]
    { 1 + nd::below(MAX_PAGES) % 8 }
}
/// an address: natively, near the pages of a small memory
pub fn addr(n: u64) -> u64 {
    let a = nd::u64();
    #[cfg(not(kani))]
    if nd::random() && a % 4 != 0 {
        let near = (a >> 8) % ((n + 1) * PAGE);
        let edge = (a >> 40) % (n + 1) * PAGE;
        let a = if a % 4 == 1 { near } else { edge.wrapping_add((a >> 8) % 33).wrapping_sub(16) };
        nd::amend(&a.to_le_bytes());
        return a;
    }
    let _ = n;
    a
}
/// a byte index of a memory of `n` pages: natively, near `a`
fn probe(n: u64, a: u64) -> u64 {
    let q = nd::u64();
    #[cfg(not(kani))]
    if nd::random() {
        let q = if q % 4 != 0 { a.wrapping_add((q >> 8) % 24).wrapping_sub(8) % (n * PAGE) } else { (q >> 8) % (n * PAGE) };
        nd::amend(&q.to_le_bytes());
        return q;
    }
    let _ = a;
    nd::assume(q < n * PAGE);
    q
}
fn page_probe(n: u64, a: u64) -> u64 {
    let p = nd::u64();
    #[cfg(not(kani))]
    if nd::random() {
        let p = (a / PAGE).wrapping_add(p % 4).wrapping_sub(1) % n;
        nd::amend(&p.to_le_bytes());
        return p;
    }
    let _ = a;
    nd::assume(p < n);
    p
}
/// what the contract says of one store-like operation: `$w` bytes at `$a`, byte `i` being `$byte(i)`
macro_rules! after_store {
    ($m:ident, $r:ident, $a:ident, $w:expr, $byte:expr, $q:ident, $p:ident, $f:ident, $b0:ident, $b1:ident, $lr:ident, $size:ident) => {
        if inside($a, $w, $size) {
            ensure!($r.is_ok(), "a store inside memory succeeds");
            let b = if $q >= $a && $q - $a < $w { $byte($q - $a) } else { $b0 };
            ensure!($b1 == b, "exactly the stored bytes change, in order");
            let hit = $p >= $a / PAGE && $p <= ($a + $w - 1) / PAGE;
            ensure!(val($m.fetch_flag($p)) == (if hit { $f | FLAG_DIRTY } else { $f }), "exactly the pages written become dirty");
        } else {
            ensure!(oob(&$r), "a store that is not inside memory is refused as out of bounds");
            ensure!($b1 == $b0 || ($q >= $a && $q - $a < $w), "a refused store changes no byte outside its range");
            ensure!(val($m.fetch_flag($p)) & !FLAG_DIRTY == $f & !FLAG_DIRTY, "a refused store changes no flag but dirtiness");
        }
        ensure!(*$m.lr() == $lr && $m.memory_size() as u64 == $size, "a store leaves the reservation and the size");
    };
}
fn le(v: u64) -> impl Fn(u64) -> u8 {
    move |i| (v >> (8 * (i & 7))) as u8
}

pub mod flat_ {
    use super::*;
    /// any flat memory of `n` pages, in which page `p` has flags `f`
    pub fn flat(n: u64, p: u64, f: u8) -> FlatMemory<u64> {
        let mut m = FlatMemory::<u64>::new_with_memory((n * PAGE) as usize);
        *m = any_bytes(n * PAGE);
        val(m.set_flag(p, f));
        let lr = nd::u64();
        m.set_lr(&lr);
        m
    }
    macro_rules! store {
        ($op:ident, $w:literal) => {{
            let n = pages();
            let a = addr(n);
            let (q, p, f, v) = (probe(n, a), page_probe(n, a), nd::u8(), nd::u64());
            let mut m = flat(n, p, f);
            let (size, b0, lr) = (m.memory_size() as u64, m[q as usize], *m.lr());
            ensure!(size == n * PAGE, "the size is the size given");
            let r = m.$op(&a, &v);
            let b1 = m[q as usize];
            after_store!(m, r, a, $w, le(v), q, p, f, b0, b1, lr, size);
            ensure!(r.is_ok() || (b1 == b0 && val(m.fetch_flag(p)) == f), "a refused store changes nothing");
            reach!(r.is_ok() && q == a, "stored");
            crate::nd::done((r, m));
        }};
    }
    macro_rules! load {
        ($op:ident, $w:literal, $a:ident, $e:expr) => {{
            let n = pages();
            let $a = addr(n);
            let (q, p, f, k) = (probe(n, $a), page_probe(n, $a), nd::u8(), nd::below($w));
            let mut m = flat(n, p, f);
            let (size, b0, lr) = (m.memory_size() as u64, m[q as usize], *m.lr());
            let r = m.$op($e).map(|v| v as u64);
            if inside($a, $w, size) {
                let b = m[($a + k) as usize] as u64;
                ensure!(matches!(&r, Ok(v) if (*v >> (8 * k)) & 255 == b && ($w == 8 || *v >> (8 * ($w & 7)) == 0)), "a load gives the bytes at its address, in little-endian order, zero-extended");
            } else {
                ensure!(oob(&r), "a load that is not inside memory is refused as out of bounds");
            }
            ensure!(m[q as usize] == b0 && val(m.fetch_flag(p)) == f && *m.lr() == lr, "a load changes nothing");
            reach!(r.is_ok() && $a % PAGE == PAGE - $w, "loaded");
            crate::nd::done((r, m));
        }};
    }
    /// contract of the conversion of I/O errors: the bytes of an access inside memory are there, so it is never
    /// needed
    pub fn no_io_error(e: std::io::Error) -> Error {
        std::mem::forget(e);
        ensure!(false, "an access inside memory reaches its bytes");
        Error::Asm(0)
    }
    proofs! {
        fn store8 [3] { store!(store8, 1) }
        fn store16 [4] { store!(store16, 2) }
        fn store32 [4] { store!(store32, 4) }
        fn store64 [4] { store!(store64, 8) }
        #[cfg_attr(kani, kani::stub(<ckb_vm::Error as std::convert::From<std::io::Error>>::from, no_io_error))]
        fn load8 [3] { load!(load8, 1, a, &a) }
        #[cfg_attr(kani, kani::stub(<ckb_vm::Error as std::convert::From<std::io::Error>>::from, no_io_error))]
        fn load16 [3] { load!(load16, 2, a, &a) }
        #[cfg_attr(kani, kani::stub(<ckb_vm::Error as std::convert::From<std::io::Error>>::from, no_io_error))]
        fn load32 [3] { load!(load32, 4, a, &a) }
        #[cfg_attr(kani, kani::stub(<ckb_vm::Error as std::convert::From<std::io::Error>>::from, no_io_error))]
        fn load64 [3] { load!(load64, 8, a, &a) }
        #[cfg_attr(kani, kani::stub(<ckb_vm::Error as std::convert::From<std::io::Error>>::from, no_io_error))]
        fn execute_load16 [3] { load!(execute_load16, 2, a, a) }
        #[cfg_attr(kani, kani::stub(<ckb_vm::Error as std::convert::From<std::io::Error>>::from, no_io_error))]
        fn execute_load32 [3] { load!(execute_load32, 4, a, a) }
        fn flags [3] {
            let n = pages();
            let (p, k, f, g) = (page_probe(n, 0), nd::u64(), nd::u8(), nd::u8());
            let clear = nd::bool();
            let mut m = flat(n, p, f);
            let g0 = m.fetch_flag(k);
            let r = if clear { m.clear_flag(k, g) } else { m.set_flag(k, g) };
            let want = if p != k { f } else if clear { f & !g } else { f | g };
            ensure!(r.is_ok() == (k < n) && g0.is_ok() == (k < n), "pages of the memory have flags, and no others");
            ensure!(k < n || (oob(&r) && oob(&g0)), "other pages are out of bounds");
            ensure!(val(m.fetch_flag(p)) == want, "exactly the given bits of the given page change");
            reach!(r.is_ok() && p == k, "changed");
            crate::nd::done((g0, r, m));
        }
        fn reset [3] {
            let n = pages();
            let (q, p, f) = (probe(n, 0), page_probe(n, 0), nd::u8());
            let mut m = flat(n, p, f);
            let r = m.reset_memory();
            ensure!(r.is_ok() && m[q as usize] == 0 && val(m.fetch_flag(p)) == 0 && *m.lr() == u64::MAX && m.memory_size() as u64 == n * PAGE, "reset zeroes every byte, every flag and the reservation");
            reach!(f != 0, "reset");
            crate::nd::done((r, m));
        }
        fn new [3] {
            let n = pages();
            let (q, p) = (probe(n, 0), page_probe(n, 0));
            let mut m = FlatMemory::<u64>::new_with_memory((n * PAGE) as usize);
            ensure!(m[q as usize] == 0 && val(m.fetch_flag(p)) == 0 && *m.lr() == u64::MAX && m.memory_size() as u64 == n * PAGE, "a new memory is zero everywhere");
            reach!(q > 100000, "new");
            crate::nd::done(m);
        }
        fn bulk_store_bytes [5] {
            let n = pages();
            let a = addr(n);
            let (q, p, f) = (probe(n, a), page_probe(n, a), nd::u8());
            let v = any_slice(2 * PAGE);
            let mut m = flat(n, p, f);
            let (size, b0, lr, w) = (m.memory_size() as u64, m[q as usize], *m.lr(), v.len() as u64);
            let r = m.store_bytes(a, v);
            let b1 = m[q as usize];
            if w == 0 {
                ensure!(r.is_ok() && b1 == b0 && val(m.fetch_flag(p)) == f, "storing nothing does nothing");
            } else {
                after_store!(m, r, a, w, |i| v[i as usize], q, p, f, b0, b1, lr, size);
                ensure!(r.is_ok() || (b1 == b0 && val(m.fetch_flag(p)) == f), "a refused store changes nothing");
            }
            reach!(r.is_ok() && w > PAGE + 2 && q > a, "stored");
            crate::nd::done((r, m));
        }
        fn bulk_store_byte [5] {
            let n = pages();
            let a = addr(n);
            let (q, p, f, v) = (probe(n, a), page_probe(n, a), nd::u8(), nd::u8());
            let w = nd::below(2 * PAGE + 1);
            let mut m = flat(n, p, f);
            let (size, b0, lr) = (m.memory_size() as u64, m[q as usize], *m.lr());
            let r = m.store_byte(a, w, v);
            let b1 = m[q as usize];
            if w == 0 {
                ensure!(r.is_ok() && b1 == b0 && val(m.fetch_flag(p)) == f, "storing nothing does nothing");
            } else {
                after_store!(m, r, a, w, |_| v, q, p, f, b0, b1, lr, size);
                ensure!(r.is_ok() || (b1 == b0 && val(m.fetch_flag(p)) == f), "a refused store changes nothing");
            }
            reach!(r.is_ok() && w > PAGE + 2 && q > a, "stored");
            crate::nd::done((r, m));
        }
        fn load_bytes [3] {
            let n = pages();
            let a = addr(n);
            let (q, p, f, k, w) = (probe(n, a), page_probe(n, a), nd::u8(), nd::u64(), addr(n));
            let mut m = flat(n, p, f);
            let (size, b0, lr) = (m.memory_size() as u64, m[q as usize], *m.lr());
            let r = m.load_bytes(a, w);
            if w == 0 || inside(a, w, size) && a < size {
                ensure!(matches!(&r, Ok(b) if b.len() as u64 == w && (k >= w || b[k as usize] == m[(a + k) as usize])), "a bulk load gives the bytes at its address");
            } else {
                ensure!(oob(&r), "a bulk load that is not inside memory is refused as out of bounds");
            }
            ensure!(m[q as usize] == b0 && val(m.fetch_flag(p)) == f && *m.lr() == lr, "a load changes nothing");
            reach!(r.is_ok() && w > PAGE && k < w, "loaded");
            crate::nd::done((r, m));
        }
    }
}

pub mod sparse_ {
    //! `fetch_page` is proved directly (`direct_*`: every page number has one page of its own, initially zero);
    //! the operations that use it are proved against that contract.
    use super::*;
    use ckb_vm::memory::Page;
    use ckb_vm::Register;
    pub const NONE: u32 = u32::MAX;
    /// any sparse memory of `n` pages in which page number `k[i]` has slot `s[i]` (NONE: never touched)
    fn sparse(n: u64, k: [u64; 2], s: [u32; 2], p: u64, f: u8) -> SparseMemory<u64> {
        nd::assume(if k[0] == k[1] { s[0] == s[1] } else { s[0] != s[1] || s[0] == NONE });
        #[cfg(kani)]
        {
            let len = nd::below(MAX_PAGES) as usize;
            let mut indices: Vec<u32> = Vec::with_capacity(n as usize);
            unsafe { indices.set_len(n as usize) };
            let mut i = 0;
            while i < 2 {
                nd::assume(s[i] == NONE || (s[i] as usize) < len);
                if k[i] < n {
                    indices[k[i] as usize] = s[i];
                }
                i += 1;
            }
            let mut pages: Vec<Page> = Vec::with_capacity(len + 3);
            unsafe { pages.set_len(len) };
            let mut m = SparseMemory::from_parts(indices, pages, any_bytes(n), nd::u64());
            let old = val(m.fetch_flag(p));
            val(m.clear_flag(p, old));
            val(m.set_flag(p, f));
            m
        }
        #[cfg(not(kani))]
        {
            let _ = nd::below(MAX_PAGES);
            let mut m = SparseMemory::<u64>::new_with_memory((n * PAGE) as usize);
            let mut o: Vec<usize> = (0..2).collect();
            o.sort_by_key(|i| s[*i]);
            for i in o {
                if s[i] != NONE && k[i] < n {
                    val(m.store_bytes(k[i] * PAGE, &any_bytes(PAGE)));
                    val(m.clear_flag(k[i], 0xff));
                }
            }
            let lr = nd::u64();
            m.set_lr(&lr);
            val(m.set_flag(p, f));
            m
        }
    }
    /// a slot number (natively: small, or none)
    fn slot() -> u32 {
        let s = nd::u32();
        #[cfg(not(kani))]
        if nd::random() {
            let s = if s % 3 == 0 { NONE } else { s % 64 };
            nd::amend(&s.to_le_bytes());
            return s;
        }
        s
    }
    /// The contract of `Vec::push` on a vector with room, at the probed byte of what is pushed (its other bytes
    /// are left arbitrary, which is weaker than what push promises).
    pub static mut PROBE: usize = 0;
    #[cfg(kani)]
    pub fn push<T, A: std::alloc::Allocator>(v: &mut Vec<T, A>, x: T) {
        unsafe {
            let n = v.len();
            nd::assume(n < v.capacity());
            let k = PROBE % std::mem::size_of::<T>();
            *(v.as_mut_ptr().add(n) as *mut u8).add(k) = *(&x as *const T as *const u8).add(k);
            v.set_len(n + 1);
        }
    }
    /// the same on an empty vector
    #[cfg(kani)]
    pub fn push_first<T, A: std::alloc::Allocator>(v: &mut Vec<T, A>, x: T) {
        unsafe {
            nd::assume(v.len() == 0);
            std::ptr::write(v as *mut Vec<T, A> as *mut Vec<T>, Vec::with_capacity(1));
        }
        push(v, x)
    }
    /// The contract of `SparseMemory::fetch_page`: a page number has one page of its own, the same at every call;
    /// page numbers outside memory are refused. At most three page numbers are asked for.
    pub static mut SLOTS: [(u64, *mut u8); 3] = [(u64::MAX, std::ptr::null_mut()); 3];
    pub fn fetch_page<R: Register>(this: &mut SparseMemory<R>, aligned_addr: u64) -> Result<&mut Page, Error> {
        let page = aligned_addr / PAGE;
        if page >= this.memory_size() as u64 / PAGE {
            return Err(Error::MemOutOfBound(aligned_addr, OutOfBoundKind::Memory));
        }
        let mut i = 0;
        while i < 3 {
            unsafe {
                if SLOTS[i].0 == page || SLOTS[i].0 == u64::MAX {
                    SLOTS[i].0 = page;
                    return Ok(&mut *(SLOTS[i].1 as *mut Page));
                }
            }
            i += 1;
        }
        nd::assume(false);
        Err(Error::Asm(1))
    }
    /// any sparse memory of `n` pages; its pages are reached through `fetch_page` only
    fn modular(n: u64, p: u64, f: u8) -> SparseMemory<u64> {
        #[cfg(kani)]
        {
            let mut i = 0;
            while i < 3 {
                let l = nd::u64();
                nd::assume(l >= PAGE && l < 2 * PAGE);
                let mut v = any_bytes(l);
                unsafe { SLOTS[i] = (u64::MAX, v.as_mut_ptr()) };
                std::mem::forget(v);
                i += 1;
            }
            let mut indices: Vec<u32> = Vec::with_capacity(n as usize);
            unsafe { indices.set_len(n as usize) };
            let mut m = SparseMemory::from_parts(indices, Vec::new(), any_bytes(n), nd::u64());
            let old = val(m.fetch_flag(p));
            val(m.clear_flag(p, old));
            val(m.set_flag(p, f));
            m
        }
        #[cfg(not(kani))]
        {
            let mut m = SparseMemory::<u64>::new_with_memory((n * PAGE) as usize);
            val(m.store_bytes(0, &any_bytes(n * PAGE)));
            for i in 0..n {
                val(m.clear_flag(i, 255));
            }
            val(m.set_flag(p, f));
            let _ = (nd::u64(), nd::u64(), nd::u64());
            let lr = nd::u64();
            m.set_lr(&lr);
            m
        }
    }
    /// the byte at `q`
    fn byte(m: &mut SparseMemory<u64>, q: u64) -> u8 {
        #[cfg(kani)]
        {
            match fetch_page(m, q / PAGE * PAGE) {
                Ok(p) => p[(q % PAGE) as usize],
                Err(e) => { crate::nd::done(e); 0 }
            }
        }
        #[cfg(not(kani))]
        {
            m.load8(&q).unwrap() as u8
        }
    }
    macro_rules! store {
        ($op:ident, $w:literal) => {{
            let n = pages();
            let a = addr(n);
            let (q, p, f, v) = (probe(n, a), page_probe(n, a), nd::u8(), nd::u64());
            let mut m = modular(n, p, f);
            let (size, lr) = (m.memory_size() as u64, *m.lr());
            let b0 = byte(&mut m, q);
            let r = m.$op(&a, &v);
            let b1 = byte(&mut m, q);
            after_store!(m, r, a, $w, le(v), q, p, f, b0, b1, lr, size);
            reach!(r.is_ok() && q == a, "stored");
            crate::nd::done((r, m));
        }};
    }
    macro_rules! load {
        ($op:ident, $w:literal, $a:ident, $e:expr) => {{
            let n = pages();
            let $a = addr(n);
            let (p, f, k) = (page_probe(n, $a), nd::u8(), nd::below($w));
            let mut m = modular(n, p, f);
            let (size, lr) = (m.memory_size() as u64, *m.lr());
            let b = if inside($a, $w, size) { byte(&mut m, $a + k) as u64 } else { 0 };
            let r = m.$op($e).map(|v| v as u64);
            if inside($a, $w, size) {
                ensure!(matches!(&r, Ok(v) if (*v >> (8 * k)) & 255 == b && ($w == 8 || *v >> (8 * ($w & 7)) == 0)), "a load gives the bytes at its address, in little-endian order, zero-extended");
                ensure!(byte(&mut m, $a + k) as u64 == b, "a load changes no byte");
            } else {
                ensure!(oob(&r), "a load that is not inside memory is refused as out of bounds");
            }
            ensure!(val(m.fetch_flag(p)) == f && *m.lr() == lr, "a load changes no flags and no reservation");
            reach!(r.is_ok() && $a % PAGE == PAGE - $w, "loaded");
            crate::nd::done((r, m));
        }};
    }
    proofs! {
        #[cfg_attr(kani, kani::stub(std::vec::Vec::push, push))]
        fn direct_load8 [4] {
            let n = pages();
            let a = addr(n);
            let (q, p) = (probe(n, a), page_probe(n, a));
            unsafe { PROBE = (q % PAGE) as usize; }
            let s = [slot(), slot()];
            let mut m = sparse(n, [q / PAGE, a / PAGE], s, p, 0);
            let b0 = val(m.load8(&q));
            ensure!(s[0] != NONE || b0 == 0, "a byte of a page never touched is zero");
            let r = m.load8(&a);
            ensure!(val(m.load8(&q)) == b0, "a load changes no byte");
            ensure!(r.is_ok() == (a < n * PAGE) && (r.is_ok() || oob(&r)), "a byte is loaded exactly from inside memory");
            ensure!(val(m.fetch_flag(p)) == 0, "a load changes no flags");
            reach!(r.is_ok() && b0 != 0, "loaded");
            reach!(r.is_ok() && s[0] == NONE && s[1] == NONE && a / PAGE != q / PAGE, "new pages");
            crate::nd::done((r, m));
        }
        #[cfg_attr(kani, kani::stub(std::vec::Vec::push, push))]
        fn direct_store8 [3] {
            let n = pages();
            let a = probe(n, 0);
            let (q, v) = (probe(n, a), nd::u64());
            unsafe { PROBE = (q % PAGE) as usize; }
            let mut m = sparse(n, [q / PAGE, a / PAGE], [slot(), slot()], 0, 0);
            let b0 = val(m.load8(&q)) as u8;
            let r = m.store8(&a, &v);
            let b1 = val(m.load8(&q)) as u8;
            ensure!(r.is_ok() && b1 == (if q == a { v as u8 } else { b0 }), "exactly the stored byte changes");
            reach!(r.is_ok() && q == a, "stored");
            crate::nd::done((r, m));
        }
        #[cfg_attr(kani, kani::stub(ckb_vm::memory::sparse::SparseMemory::fetch_page, fetch_page))]
        fn store8 [4] { store!(store8, 1) }
        #[cfg_attr(kani, kani::stub(ckb_vm::memory::sparse::SparseMemory::fetch_page, fetch_page))]
        fn load8 [4] { load!(load8, 1, a, &a) }
        #[cfg_attr(kani, kani::stub(ckb_vm::memory::sparse::SparseMemory::fetch_page, fetch_page))]
        fn store16 [4] { store!(store16, 2) }
        #[cfg_attr(kani, kani::stub(ckb_vm::memory::sparse::SparseMemory::fetch_page, fetch_page))]
        fn store32 [4] { store!(store32, 4) }
        #[cfg_attr(kani, kani::stub(ckb_vm::memory::sparse::SparseMemory::fetch_page, fetch_page))]
        fn store64 [4] { store!(store64, 8) }
        #[cfg_attr(kani, kani::stub(ckb_vm::memory::sparse::SparseMemory::fetch_page, fetch_page))]
        fn load16 [4] { load!(load16, 2, a, &a) }
        #[cfg_attr(kani, kani::stub(ckb_vm::memory::sparse::SparseMemory::fetch_page, fetch_page))]
        fn load32 [5] { load!(load32, 4, a, &a) }
        #[cfg_attr(kani, kani::stub(ckb_vm::memory::sparse::SparseMemory::fetch_page, fetch_page))]
        fn load64 [9] { load!(load64, 8, a, &a) }
        #[cfg_attr(kani, kani::stub(ckb_vm::memory::sparse::SparseMemory::fetch_page, fetch_page))]
        fn execute_load16 [4] { load!(execute_load16, 2, a, a) }
        #[cfg_attr(kani, kani::stub(ckb_vm::memory::sparse::SparseMemory::fetch_page, fetch_page))]
        fn execute_load32 [5] { load!(execute_load32, 4, a, a) }
        fn flags [4] {
            let n = pages();
            let (p, k, f, g) = (page_probe(n, 0), nd::u64(), nd::u8(), nd::u8());
            let clear = nd::bool();
            let mut m = modular(n, p, f);
            let g0 = m.fetch_flag(k);
            let r = if clear { m.clear_flag(k, g) } else { m.set_flag(k, g) };
            let want = if p != k { f } else if clear { f & !g } else { f | g };
            ensure!(r.is_ok() == (k < n) && g0.is_ok() == (k < n), "pages of the memory have flags, and no others");
            ensure!(k < n || (oob(&r) && oob(&g0)), "other pages are out of bounds");
            ensure!(val(m.fetch_flag(p)) == want, "exactly the given bits of the given page change");
            reach!(r.is_ok() && p == k, "changed");
            crate::nd::done((g0, r, m));
        }
        #[cfg_attr(kani, kani::stub(std::vec::Vec::push, push_first))]
        fn bulk_new [5] {
            let n = 1 + nd::below(3);
            let (q, p) = (probe(n, 0), page_probe(n, 0));
            unsafe { PROBE = (q % PAGE) as usize; }
            let mut m = SparseMemory::<u64>::new_with_memory((n * PAGE) as usize);
            ensure!(val(m.load8(&q)) == 0 && val(m.fetch_flag(p)) == 0 && *m.lr() == u64::MAX && m.memory_size() as u64 == n * PAGE, "a new memory is zero everywhere");
            reach!(q > PAGE, "new");
            crate::nd::done(m);
        }
        #[cfg_attr(kani, kani::stub(ckb_vm::memory::sparse::SparseMemory::fetch_page, fetch_page))]
        fn bulk_store_bytes [4] {
            let n = pages();
            let a = addr(n);
            let (q, p, f) = (probe(n, a), page_probe(n, a), nd::u8());
            let v = any_slice(PAGE);
            let mut m = modular(n, p, f);
            let (size, lr, w) = (m.memory_size() as u64, *m.lr(), v.len() as u64);
            let b0 = byte(&mut m, q);
            let r = m.store_bytes(a, v);
            let b1 = byte(&mut m, q);
            if w == 0 {
                ensure!(r.is_ok() && b1 == b0 && val(m.fetch_flag(p)) == f, "storing nothing does nothing");
            } else {
                after_store!(m, r, a, w, |i| v[i as usize], q, p, f, b0, b1, lr, size);
            }
            reach!(r.is_ok() && w > PAGE / 2 && q > a, "stored");
            crate::nd::done((r, m));
        }
        #[cfg_attr(kani, kani::stub(ckb_vm::memory::sparse::SparseMemory::fetch_page, fetch_page))]
        fn bulk_store_byte [4] {
            let n = pages();
            let a = addr(n);
            let (q, p, f, v) = (probe(n, a), page_probe(n, a), nd::u8(), nd::u8());
            let w = nd::below(PAGE + 1);
            let mut m = modular(n, p, f);
            let (size, lr) = (m.memory_size() as u64, *m.lr());
            let b0 = byte(&mut m, q);
            let r = m.store_byte(a, w, v);
            let b1 = byte(&mut m, q);
            if w == 0 {
                ensure!(r.is_ok() && b1 == b0 && val(m.fetch_flag(p)) == f, "storing nothing does nothing");
            } else {
                after_store!(m, r, a, w, |_| v, q, p, f, b0, b1, lr, size);
            }
            reach!(r.is_ok() && w > PAGE / 2 && q > a, "stored");
            crate::nd::done((r, m));
        }
        #[cfg_attr(kani, kani::stub(ckb_vm::memory::sparse::SparseMemory::fetch_page, fetch_page))]
        fn bulk_load_bytes [4] {
            let n = pages();
            let a = addr(n);
            let w = nd::below(PAGE + 1);
            let (p, f, k) = (page_probe(n, a), nd::u8(), nd::below(PAGE));
            let mut m = modular(n, p, f);
            let (size, lr) = (m.memory_size() as u64, *m.lr());
            let r = m.load_bytes(a, w);
            if w == 0 || inside(a, w, size) {
                ensure!(r.is_ok(), "a bulk load inside memory succeeds");
                if let Ok(b) = &r {
                    ensure!(b.len() as u64 == w, "a bulk load gives as many bytes as asked for");
                    ensure!(k >= w || b[k as usize] == byte(&mut m, a + k), "a bulk load gives the bytes at its address");
                }
            } else {
                ensure!(oob(&r), "a bulk load that is not inside memory is refused as out of bounds");
            }
            ensure!(val(m.fetch_flag(p)) == f && *m.lr() == lr, "a load changes no flags and no reservation");
            reach!(r.is_ok() && w > PAGE / 2 && k < w, "loaded");
            crate::nd::done((r, m));
        }
    }
}
