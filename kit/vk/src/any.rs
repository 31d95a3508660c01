//! Symbolic inputs. Outside Kani (never used by a check) these are unreachable.
macro_rules! mk {
    ($($f:ident $t:ty),*) => {$(
        #[inline(never)]
        pub fn $f() -> $t {
            #[cfg(kani)]
            { kani::any() }
            #[cfg(not(kani))]
            { panic!("symbolic value requested outside the verifier") }
        }
    )*};
}
mk!(any_bool bool, any_u8 u8, any_u16 u16, any_u32 u32, any_u64 u64, any_usize usize, any_i64 i64, any_i32 i32);

pub fn assume(_c: bool) {
    #[cfg(kani)]
    kani::assume(_c);
    #[cfg(not(kani))]
    if !_c { panic!("precondition not met") }
}
pub fn any_below(n: usize) -> usize { let v = any_usize(); assume(v < n); v }
