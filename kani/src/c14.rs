use crate::base::*;
both! {
    triple!(c14_before, f_before, fn(i: TimeInterval<T>, t: T) -> (TimeInterval<T>, bool) { let mut j = i; let c = j.truncate_before(t); (j, c) } ensures(|r| { let e = canon((if t.k() > lo(&i) { t.k() } else { lo(&i) }, up(&i))); is(&r.0, e.0, e.1) && r.1 == (e != cb(&i)) }));
    triple!(c14_after, f_after, fn(i: TimeInterval<T>, t: T) -> (TimeInterval<T>, bool) { let mut j = i; let c = j.truncate_after(t); (j, c) } ensures(|r| { let e = canon((lo(&i), if t.k() < up(&i) { t.k() } else { up(&i) })); is(&r.0, e.0, e.1) && r.1 == (e != cb(&i)) }));
}
