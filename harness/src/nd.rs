//! Source of nondeterminism. Under Kani every call is a fresh symbolic value; natively (replay)
//! the values of a counterexample are taken from a queue, in the same order.
#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! {
        static Q: RefCell<VecDeque<u8>> = RefCell::new(VecDeque::new());
        static RNG: RefCell<Option<u64>> = RefCell::new(None);
        static REC: RefCell<Vec<u8>> = RefCell::new(Vec::new());
    }
    pub struct AssumeFailed;
    /// replay mode: the bytes of every nondeterministic value, in program order
    pub fn load(hex: &str) {
        let h: Vec<u8> = hex.bytes().filter(|c| c.is_ascii_hexdigit()).collect();
        let v: VecDeque<u8> =
            h.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
        Q.with(|q| *q.borrow_mut() = v);
        RNG.with(|r| *r.borrow_mut() = None);
    }
    /// random mode
    pub fn seed(s: u64) {
        let mut z = s ^ 0xd1b5_4a32_d192_ed03;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        RNG.with(|r| *r.borrow_mut() = Some((z ^ (z >> 31)) | 1));
        REC.with(|r| r.borrow_mut().clear());
    }
    pub fn recorded() -> String {
        REC.with(|r| r.borrow().iter().map(|b| format!("{:02x}", b)).collect())
    }
    pub fn random() -> bool {
        RNG.with(|r| r.borrow().is_some())
    }
    fn step() -> u64 {
        RNG.with(|r| {
            let mut r = r.borrow_mut();
            let s = r.as_mut().unwrap();
            *s ^= *s << 13;
            *s ^= *s >> 7;
            *s ^= *s << 17;
            *s
        })
    }
    pub fn record(b: &[u8]) {
        REC.with(|r| r.borrow_mut().extend_from_slice(b));
    }
    /// replaces the value just drawn (random mode), so that a replay sees the value used
    pub fn amend(b: &[u8]) {
        REC.with(|r| {
            let mut r = r.borrow_mut();
            let n = r.len() - b.len();
            r.truncate(n);
            r.extend_from_slice(b);
        })
    }
    fn raw(n: usize) -> Vec<u8> {
        let k = step();
        let v = step().wrapping_mul(0x2545_f491_4f6c_dd1d);
        let v = match (k >> 20) % 8 {
            0 => 0,
            1 => u64::MAX,
            2 => v & 0xff,
            3 => (v as i8) as i64 as u64,
            4 => 1u64 << (v & 63),
            5 => (v as i32) as i64 as u64,
            _ => v,
        };
        v.to_le_bytes()[..n].to_vec()
    }
    pub fn next(n: usize) -> Vec<u8> {
        if random() {
            let v = raw(n);
            record(&v);
            return v;
        }
        Q.with(|q| {
            let mut q = q.borrow_mut();
            (0..n).map(|_| q.pop_front().unwrap_or(0)).collect()
        })
    }
    pub fn uniform(n: u64) -> u64 {
        let v = step().wrapping_mul(0x2545_f491_4f6c_dd1d) >> 11;
        v % n
    }
}
#[cfg(not(kani))]
pub use imp::*;

macro_rules! mk {
    ($name:ident, $t:ty) => {
        #[inline(always)]
        pub fn $name() -> $t {
            #[cfg(kani)]
            {
                kani::any::<$t>()
            }
            #[cfg(not(kani))]
            {
                <$t>::from_le_bytes(imp::next(std::mem::size_of::<$t>()).try_into().unwrap())
            }
        }
    };
}
mk!(u8, u8);
mk!(u16, u16);
mk!(u32, u32);
mk!(u64, u64);

#[inline(always)]
pub fn bool() -> bool {
    #[cfg(kani)]
    {
        kani::any::<bool>()
    }
    #[cfg(not(kani))]
    {
        imp::next(1)[0] & 1 == 1
    }
}

/// Ends a value's life: under verification without its drop glue.
pub fn done<T>(x: T) {
    #[cfg(kani)]
    std::mem::forget(x);
    #[cfg(not(kani))]
    drop(x);
}
/// Precondition.
#[inline(always)]
pub fn assume(c: bool) {
    #[cfg(kani)]
    kani::assume(c);
    #[cfg(not(kani))]
    if !c {
        std::panic::panic_any(imp::AssumeFailed);
    }
}

/// A value in 0..n
#[inline(always)]
pub fn below(n: u64) -> u64 {
    #[cfg(kani)]
    {
        let v = u64();
        kani::assume(v < n);
        v
    }
    #[cfg(not(kani))]
    {
        if imp::random() {
            let v = imp::uniform(n);
            imp::record(&v.to_le_bytes());
            v
        } else {
            let v = u64();
            assume(v < n);
            v
        }
    }
}

/// Consumes the value of a variable that is *defined* by an equality (any() + assume(x == e)).
#[cfg(not(kani))]
pub fn defined() {
    let _ = imp::next(8);
}
