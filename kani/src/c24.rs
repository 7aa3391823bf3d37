use crate::base::*;
type V = TimeValue;
// an infinite duration stays infinite with the sign of the result; and what the Verus unit `floats` assumes of conversions
macro_rules! float { ($($m:ident $t:ty, $p:expr;)*) => { $( mod $m { use super::*;
    fn any() -> $t { let f = <$t>::from_bits(kani::any()); kani::assume(f.is_finite()); f }
    #[kani::proof] fn c24_infinite() { let (a, n) = (V::arb(), any()); kani::assume(inf(a.k())); assert!((a * n).k() == if n > 0. { a.k() } else if n < 0. { -a.k() } else { 0 }); }
    #[kani::proof] fn c24_infinite_div() { let (a, n) = (V::arb(), any()); kani::assume(inf(a.k()) && n != 0. && (1. / n).is_finite()); assert!((a / n).k() == if n > 0. { a.k() } else { -a.k() }); }
    #[kani::proof] fn c24_ieee_conversion_order() { let (a, b): (i64, i64) = (kani::any(), kani::any()); kani::assume(a <= b); assert!(a as $t <= b as $t); }
    #[kani::proof] fn c24_ieee_conversion_near() { let a: i64 = kani::any(); let e = (a as $t) as i128 - a as i128; assert!(e.abs() <= (a as i128).abs() >> $p); }
    #[kani::proof] fn c24_ieee_conversion_exact() { assert!(i64::MAX as $t == 9223372036854775808. && -i64::MAX as $t == -9223372036854775808. && 0i64 as $t == 0.); }
} )* } }
float! { by_f32 f32, 24; by_f64 f64, 53; }
// the products are those of IEEE 754, truncated toward zero and saturated (bit for bit, single precision only: the
// double precision circuit is out of reach of the back end)
fn any() -> f32 { let f = f32::from_bits(kani::any()); kani::assume(f.is_finite()); f }
fn scaled(a: i128, n: f32) -> i128 { if inf(a) { if n > 0. { a } else if n < 0. { -a } else { 0 } } else { (a as i64 as f32 * n) as i128 } }
#[kani::proof] fn c24_mul() { let (a, n) = (V::arb(), any()); assert!((a * n).k() == sat(scaled(a.k(), n))); }
#[kani::proof] fn c24_revmul() { let (a, n) = (V::arb(), any()); assert!((n * a).k() == sat(scaled(a.k(), n))); }
#[kani::proof] fn c24_mul_assign() { let (a, n) = (V::arb(), any()); let mut b = a; b *= n; assert!(b.k() == sat(scaled(a.k(), n))); }
