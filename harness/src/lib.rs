#![cfg_attr(kani, feature(allocator_api))]
#[macro_use]
mod macros;
pub mod nd;
pub mod ghost;
pub mod alu;
pub mod muldiv;
pub mod memop;
pub mod control;
pub mod decode;
pub mod encode;
pub mod fetch;
pub mod mop;
pub mod dispatch;
pub mod mem;
pub mod wx;
pub mod vm;

/// every harness, by name (native replay)
#[cfg(not(kani))]
pub fn all() -> Vec<(&'static str, fn())> {
    let mut v: Vec<(&'static str, fn())> = Vec::new();
    for l in [alu::i64::LIST, alu::bitmanip::LIST, memop::ls::LIST, memop::atomic::LIST, control::c::LIST, decode::w::LIST, encode::LIST, fetch::LIST, fetch::cache::LIST, mop::LIST, dispatch::LIST, mop::exec::LIST, mem::flat_::LIST, mem::sparse_::LIST, wx::LIST, wx::helpers::LIST, wx::fill::LIST, wx::bulk::LIST, vm::LIST] {
        v.extend_from_slice(l);
    }
    for l in muldiv::LISTS {
        v.extend_from_slice(l);
    }
    v
}
