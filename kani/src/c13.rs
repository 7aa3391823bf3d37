use crate::base::*;
type V = TimeValue;
/// the exact product, saturated (128 bits are enough for factors of 64 bits)
fn prod(a: i128, n: i128) -> i128 { sat(a * n) }
macro_rules! small { ($($m:ident $t:ty;)*) => { $( mod $m { use super::*;
    triple!(c13_mul, f_mul, fn(a: V, n: $t) -> V { a * n } ensures(|r| r.k() == prod(a.k(), n as i128)));
    triple!(c13_revmul, f_revmul, fn(a: V, n: $t) -> V { n * a } ensures(|r| r.k() == prod(a.k(), n as i128)));
    triple!(c13_mul_assign, f_mul_assign, fn(a: V, n: $t) -> V { let mut b = a; b *= n; b } ensures(|r| r.k() == prod(a.k(), n as i128)));
} )* } }
small! { by_i8 i8; by_u8 u8; by_i16 i16; by_u16 u16; by_i32 i32; by_u32 u32; by_i64 i64; }
