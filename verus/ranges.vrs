//@include setcore
// ---- the windows made of one interval at most, and the questions asked to any window (C05) ------------------------------------
/// `std::ops::Range` and its sisters over time points: same fields, emptiness as in the standard library
//@for R F G in Range:start:end RangeInclusive:start:end
#[derive(Copy, Clone)]
pub struct %R% { pub %F%: TimeValue, pub %G%: TimeValue }
//@endfor
//@for R F in RangeFrom:start RangeTo:end RangeToInclusive:end
#[derive(Copy, Clone)]
pub struct %R% { pub %F%: TimeValue }
//@endfor
pub open spec fn spec_empty() -> TimeInterval { TimeInterval { lower: TimeValue(M() as i64), upper: TimeValue((-M()) as i64) } }
/// just before, on the extended line
pub open spec fn pre(x: int) -> int { if isinf(x) { x } else { x - 1 } }
pub open spec fn iv_of(l: int, u: int) -> TimeInterval { if l <= u && l < M() && u > -M() { TimeInterval { lower: TimeValue(l as i64), upper: TimeValue(u as i64) } } else { spec_empty() } }

/// a window: `pts` says which finite points it holds (the meaning of Rust's ranges, of a point)
pub trait Convex: TimeConvex {
    spec fn okc(&self) -> bool;
    spec fn pts(&self, x: int) -> bool;
    proof fn points(&self) requires self.okc() ensures okt(self.iv()), forall|x: int| -M() < x < M() ==> (self.iv().has(x) <==> #[trigger] self.pts(x));
    fn is_low_bounded(&self) -> (r: bool) requires self.okc() ensures r == (ne(self.iv()) && self.iv().lower.0 > -M());
    fn is_up_bounded(&self) -> (r: bool) requires self.okc() ensures r == (ne(self.iv()) && self.iv().upper.0 < M());
    fn is_bounded(&self) -> (r: bool) requires self.okc() ensures r == (ne(self.iv()) && self.iv().lower.0 > -M() && self.iv().upper.0 < M());
}
impl Convex for TimeInterval {
    open spec fn okc(&self) -> bool { okt(*self) }
    open spec fn pts(&self, x: int) -> bool { self.has(x) }
    proof fn points(&self) {}
    fn is_low_bounded(&self) -> (r: bool) { TimeInterval::is_low_bounded(self) }
    fn is_up_bounded(&self) -> (r: bool) { TimeInterval::is_up_bounded(self) }
    fn is_bounded(&self) -> (r: bool) { TimeInterval::is_bounded(self) }
}
//@for R FILE PTS OK IV in TimeValue:TimeValue:x==self.0:okv(*self)&&!isinf(self.0/**/as/**/int):TimeInterval{lower:*self,upper:*self} Range:Range<T>:self.start.0<=x<self.end.0:okv(self.start)&&okv(self.end):iv_of(self.start.0/**/as/**/int,pre(self.end.0/**/as/**/int)) RangeInclusive:RangeInclusive<T>:self.start.0<=x<=self.end.0:okv(self.start)&&okv(self.end):iv_of(self.start.0/**/as/**/int,self.end.0/**/as/**/int) RangeFrom:RangeFrom<T>:self.start.0<=x:okv(self.start):iv_of(self.start.0/**/as/**/int,M()) RangeTo:RangeTo<T>:x<self.end.0:okv(self.end):iv_of(-M(),pre(self.end.0/**/as/**/int)) RangeToInclusive:RangeToInclusive<T>:x<=self.end.0:okv(self.end):iv_of(-M(),self.end.0/**/as/**/int)
impl Convex for %R% {
    open spec fn okc(&self) -> bool { %OK% }
    open spec fn pts(&self, x: int) -> bool { %PTS% }
    proof fn points(&self) {}
//@fn TimeBounds for %FILE% :: is_low_bounded
    fn is_low_bounded(&self) -> (r: bool)
//@rule TimeBounds :: is_empty ( self ) ==> self.is_empty()
//@end
//@fn TimeBounds for %FILE% :: is_up_bounded
    fn is_up_bounded(&self) -> (r: bool)
//@rule TimeBounds :: is_empty ( self ) ==> self.is_empty()
//@end
//@fn TimeBounds for %FILE% :: is_bounded
    fn is_bounded(&self) -> (r: bool)
//@rule TimeBounds :: is_empty ( self ) ==> self.is_empty()
//@end
}
//@endfor
impl TimeConvex for TimeValue {
    open spec fn iv(&self) -> TimeInterval { TimeInterval { lower: *self, upper: *self } }
//@fn TimeBounds for TimeValue :: is_empty
    fn is_empty(&self) -> (r: bool)
//@end
//@fn TimeBounds for TimeValue :: lower_bound
    fn lower_bound(&self) -> (r: TimeValue)
//@end
//@fn TimeBounds for TimeValue :: upper_bound
    fn upper_bound(&self) -> (r: TimeValue)
//@end
//@fn From<T> for TimeInterval<T> :: from as into
    fn into(self) -> (r: TimeInterval)
//@end
}
//@for R OK IV in Range:okv(self.start)&&okv(self.end):iv_of(self.start.0/**/as/**/int,pre(self.end.0/**/as/**/int)) RangeInclusive:okv(self.start)&&okv(self.end):iv_of(self.start.0/**/as/**/int,self.end.0/**/as/**/int) RangeFrom:okv(self.start):iv_of(self.start.0/**/as/**/int,M()) RangeTo:okv(self.end):iv_of(-M(),pre(self.end.0/**/as/**/int)) RangeToInclusive:okv(self.end):iv_of(-M(),self.end.0/**/as/**/int)
impl TimeConvex for %R% {
    /// (a bound which is no time value gives a window which satisfies no precondition)
    open spec fn iv(&self) -> TimeInterval { if %OK% { %IV% } else { TimeInterval { lower: TimeValue(1), upper: TimeValue(0) } } }
//@fn TimeBounds for %R%<T> :: is_empty
    fn is_empty(&self) -> (r: bool)
//@rule Range :: is_empty ( self ) ==> !(self.start < self.end)
//@rule RangeInclusive :: is_empty ( self ) ==> !(self.start <= self.end)
//@rule self . start ( ) ==> self.start
//@rule self . end ( ) ==> self.end
//@end
//@fn TimeBounds for %R%<T> :: lower_bound
    fn lower_bound(&self) -> (r: TimeValue)
//@rule TimeBounds :: is_empty ( self ) ==> self.is_empty()
//@rule * self . start ( ) ==> self.start
//@rule * self . end ( ) ==> self.end
//@end
//@fn TimeBounds for %R%<T> :: upper_bound
    fn upper_bound(&self) -> (r: TimeValue)
//@rule TimeBounds :: is_empty ( self ) ==> self.is_empty()
//@rule * self . start ( ) ==> self.start
//@rule * self . end ( ) ==> self.end
//@end
//@fn From<$range<T>> for TimeInterval<T> :: from as into
    fn into(self) -> (r: TimeInterval)
//@macro timerange %R%
//@rule range ==> self
//@end
}
//@endfor
//@fn From<(T,T)> for TimeInterval<T> :: from as from_pair
pub fn from_pair(p: (TimeValue, TimeValue)) -> (r: TimeInterval)
    requires okv(p.0), okv(p.1)
    ensures r == TimeInterval::spec_new(p.0, p.1), okt(r)
//@rule Self :: new ==> TimeInterval::new
//@end
//@fn From<RangeFull> for TimeInterval<T> :: from as from_full
pub fn from_full(_full: ()) -> (r: TimeInterval)
    ensures r.lower.0 == -M(), r.upper.0 == M()
//@end
//@for R in Range RangeFrom RangeInclusive RangeTo RangeToInclusive
//@fn TimeUnion<$range<TW::TimePoint>> for TW :: union as union_%R%
pub fn union_%R%<I: Src>(this: I, tw: %R%) -> (r: IterUnion<I, OptSrc>)
    requires this.inv(), tw.okc()
    ensures r.inv(), forall|x: int| -M() < x < M() ==> (#[trigger] r.has(x) <==> this.has(x) || tw.pts(x))
//@macro timerange %R%
//@rule self ==> this
//@rule this . union ( Into :: < TimeInterval < _ > > :: into ( $*a ) . into_iter ( ) ) ==> union_iter(this, TimeConvex::into($*a).into_iter())
//@start
        proof { tw.points(); }
//@end
//@endfor
//@for R in Range RangeFrom RangeInclusive RangeTo RangeToInclusive
//@fn TimeIntersection<$range<TW::TimePoint>> for TW :: intersection as intersection_%R%
pub fn intersection_%R%<I: Src>(this: I, tw: %R%) -> (r: IterIntersection<I, OptSrc>)
    requires this.inv(), tw.okc(), this.most() < usize::MAX
    ensures r.inv(), forall|x: int| -M() < x < M() ==> (#[trigger] r.has(x) <==> this.has(x) && tw.pts(x))
//@macro timerange %R%
//@rule self ==> this
//@rule this . intersection ( Into :: < TimeInterval < _ > > :: into ( $*a ) . into_iter ( ) ) ==> intersection_iter(this, TimeConvex::into($*a).into_iter())
//@start
        proof { tw.points(); }
//@end
//@endfor
impl TimeValue {
//@fn TimeBounds for TimeValue :: is_singleton
    pub fn is_singleton(&self) -> (r: bool) ensures r
//@end
}
/// the answers given by default, for any window made of one interval at most
//@fn trait TimeBounds :: is_singleton as default_is_singleton
pub fn default_is_singleton<W: Convex>(this: &W) -> (r: bool)
    requires this.okc()
    ensures r == (ne(this.iv()) && this.iv().lower == this.iv().upper)
//@rule self ==> this
//@start
    proof { this.points(); }
//@end
//@fn trait TimeBounds :: is_bounded as default_is_bounded
pub fn default_is_bounded<W: Convex>(this: &W) -> (r: bool)
    requires this.okc()
    ensures r == (ne(this.iv()) && this.iv().lower.0 > -M() && this.iv().upper.0 < M())
//@rule self ==> this
//@end
/// a window with the instants it relates (a constraint of a graph)
//@for F B C in is_low_bounded:lower:>/**/-M() is_up_bounded:upper:</**/M()
//@fn TimeBounds for((Instant,Instant),TW) :: %F% as constraint_%F%
pub fn constraint_%F%<W: Convex>(this: &((u32, u32), W)) -> (r: bool)
    requires this.1.okc()
    ensures r == (ne(this.1.iv()) && this.1.iv().%B%.0 %C%)
//@rule self ==> this
//@end
//@endfor
