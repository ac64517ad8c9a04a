//! Environment of the data-type contracts: nothing but the alignment test of
//! bytemuck is replaced (account data is 8-byte aligned on chain).
pub type Key = [u8; 32];
pub const ZERO: Key = [0u8; 32];

pub fn is_aligned_to(_ptr: *const (), _align: usize) -> bool {
    true
}
pub fn format(_a: core::fmt::Arguments<'_>) -> String {
    String::new()
}

/// Key equality written out word by word (cheap for the solver).
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    let w = |s: &[u8], i: usize| {
        u64::from_le_bytes([s[i], s[i + 1], s[i + 2], s[i + 3], s[i + 4], s[i + 5], s[i + 6], s[i + 7]])
    };
    a.len() == 32
        && b.len() == 32
        && w(a, 0) == w(b, 0)
        && w(a, 8) == w(b, 8)
        && w(a, 16) == w(b, 16)
        && w(a, 24) == w(b, 24)
}

#[macro_export]
macro_rules! ensures {
    ($c:expr, $m:literal) => {
        kani::assert($c, concat!("POST: ", $m))
    };
}
#[macro_export]
macro_rules! reach {
    ($c:expr, $m:literal) => {
        kani::cover($c, concat!("REACH: ", $m))
    };
}
/// Two byte slices are equal: same length and every byte agrees.
#[macro_export]
macro_rules! ensures_bytes {
    ($a:expr, $b:expr, $m:literal) => {{
        let (a, b): (&[u8], &[u8]) = ($a, $b);
        kani::assert(a.len() == b.len(), concat!("POST: ", $m, " (length)"));
        if !a.is_empty() && a.len() == b.len() {
            let i: usize = kani::any();
            kani::assume(i < a.len());
            kani::assert(a[i] == b[i], concat!("POST: ", $m));
        }
    }};
}
#[macro_export]
macro_rules! proof {
    ($name:ident, $unwind:literal, $body:block) => {
        #[kani::proof]
        #[kani::stub(std::fmt::format, crate::env::format)]
        #[kani::stub(bytemuck::internal::is_aligned_to, crate::env::is_aligned_to)]
        #[kani::unwind($unwind)]
        pub fn $name() $body
    };
}
