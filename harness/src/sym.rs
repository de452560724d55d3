//! The symbolic interface.  The engine interprets these externs; the replay
//! binary implements them from a model file.
mod ext {
    extern "C" {
        pub fn sym_bits(id: u32, n: u32) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_check(c: bool, id: u32);
        pub fn sym_reach(id: u32);
        pub fn sym_obs(v: u64);
        pub fn cfg_param(i: u32) -> u64;
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_ite(c: bool, a: u64, b: u64) -> u64;
        pub fn sym_fork(c: bool) -> bool;
        pub fn sym_cant(c: bool) -> bool;
    }
}
static mut NEXT: u32 = 0;
/// A fresh arbitrary n-bit value.
pub fn bits(n: u32) -> u64 { unsafe { let id = NEXT; NEXT = id + 1; ext::sym_bits(id, n) } }
pub fn any_u32() -> u32 { bits(32) as u32 }
pub fn any_u8() -> u8 { bits(8) as u8 }
pub fn any_u64() -> u64 { bits(64) }
pub fn any_bool() -> bool { bits(1) != 0 }
/// An arbitrary value below n, explored case by case.
pub fn pick(n: u64) -> u64 { if n <= 1 { return 0; } let w = 64 - (n - 1).leading_zeros(); let v = bits(w); assume(v < n); conc(v) }
pub fn assume(c: bool) { unsafe { ext::sym_assume(c) } }
pub fn check(c: bool, id: u32) { unsafe { ext::sym_check(c, id) } }
pub fn reach(id: u32) { unsafe { ext::sym_reach(id) } }
pub fn param(i: u32) -> u64 { unsafe { ext::cfg_param(i) } }
pub fn conc(v: u64) -> u64 { unsafe { ext::sym_concretize(v) } }
/// Branch-free selection.
pub fn sel(c: bool, a: u64, b: u64) -> u64 { unsafe { ext::sym_ite(c, a, b) } }
/// Case split on a condition.
pub fn split(c: bool) -> bool { unsafe { ext::sym_fork(c) } }
/// A value compared between the symbolic run and the native one on witnesses.
pub fn obs(v: u64) { unsafe { ext::sym_obs(v) } }
/// Whether a condition is already known to be false (a hint: may say no).
pub fn cant(c: bool) -> bool { unsafe { ext::sym_cant(c) } }
