// ---- float/*.rs: the float calls do what the integer calls do on the converted points ----
//@ import calls.vx
verus! {
//@ item i_shape:base/data.rs type Path
//@ item i_shape:base/data.rs type Paths
//@ item i_shape:base/data.rs type Contour
//@ item i_shape:base/data.rs type Shape
//@ item i_shape:base/data.rs type Shapes
// stand for i_float's traits: numbers and points are taken as they are
pub trait FloatNumber: Copy {
    spec fn zero() -> Self;
    spec fn width() -> int;
    fn from_float(value: f64) -> (r: Self)
        ensures value == 0.0f64 ==> r == Self::zero();
    fn bit_width() -> (r: u8)
        ensures r == Self::width();
}
pub trait FloatPointCompatible<T: FloatNumber>: Copy { }
#[derive(Clone)]
pub struct FloatPointAdapter<P, T> { pub p: P, pub t: T }
// the conversions: names, nothing is assumed of them
pub uninterp spec fn to_int<P, T>(a: FloatPointAdapter<P, T>, p: P) -> IntPoint;
pub uninterp spec fn sqr<P, T>(a: FloatPointAdapter<P, T>, v: T) -> usize;
pub uninterp spec fn is_adapter<P, T>(c: Seq<Seq<P>>, a: FloatPointAdapter<P, T>) -> bool;
pub uninterp spec fn is_float<P, T>(i: IntShapes, a: FloatPointAdapter<P, T>, f: Shapes<P>) -> bool;
pub uninterp spec fn are_floats<P, T>(i: Vec<IntPath>, a: FloatPointAdapter<P, T>, f: Paths<P>) -> bool;
pub uninterp spec fn is_cleaned<P, T>(f: Shapes<P>, a: FloatPointAdapter<P, T>, r: Shapes<P>) -> bool;
pub open spec fn ints<P, T>(a: FloatPointAdapter<P, T>, p: Seq<P>) -> Seq<IntPoint> { Seq::new(p.len(), |i: int| to_int(a, p[i])) }

impl<P: FloatPointCompatible<T>, T: FloatNumber> FloatPointAdapter<P, T> {
    #[verifier::external_body]
    pub fn float_to_int(&self, p: &P) -> (r: IntPoint)
        ensures r == to_int(*self, *p)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sqr_float_to_int(&self, v: T) -> (r: usize)
        ensures r == sqr(*self, v)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_iter(iter: AllPoints<P>) -> (r: Self)
        ensures is_adapter(iter.given(), r)
    { unimplemented!() }
}
pub trait ShapesToFloat<P, T>: Sized { fn to_float(&self, adapter: &FloatPointAdapter<P, T>) -> Shapes<P>; }
#[verifier::external_body]
pub fn shapes_to_float<P: FloatPointCompatible<T>, T: FloatNumber>(i: &IntShapes, adapter: &FloatPointAdapter<P, T>) -> (r: Shapes<P>)
    ensures is_float(*i, *adapter, r)
{ unimplemented!() }
#[verifier::external_body]
pub fn paths_to_float<P: FloatPointCompatible<T>, T: FloatNumber>(i: &Vec<IntPath>, adapter: &FloatPointAdapter<P, T>) -> (r: Paths<P>)
    ensures are_floats(*i, *adapter, r)
{ unimplemented!() }
#[verifier::external_body]
pub fn clean<P: FloatPointCompatible<T>, T: FloatNumber>(f: &mut Shapes<P>, adapter: &FloatPointAdapter<P, T>) -> (r: bool)
    ensures is_cleaned(*old(f), *adapter, *final(f))
{ unimplemented!() }
// stands for ``c.iter().map(|p| adapter.float_to_int(p))``
pub struct Converted<'a, P, T> { pub all: &'a [P], pub adapter: &'a FloatPointAdapter<P, T> }
impl<'a, P, T> Points for Converted<'a, P, T> { open spec fn given(&self) -> Seq<IntPoint> { ints(*self.adapter, self.all@) } }
pub fn converted<'a, P, T>(all: &'a [P], adapter: &'a FloatPointAdapter<P, T>) -> (r: Converted<'a, P, T>)
    ensures r.given() == ints(*adapter, all@)
{ Converted { all, adapter } }

// ---- the contours of a resource, whichever form it has ----
// stands for Iterator<Item = &'a [P]>: what is still to come
pub trait PathSource<'a, P>: Sized {
    spec fn rest(&self) -> Seq<Seq<P>>;
    fn next(&mut self) -> (r: Option<&'a [P]>)
        ensures
            match r {
                None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
                Some(s) => old(self).rest().len() > 0 && s@ == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
            };
}
pub struct AllPoints<P> { pub any: Option<P> }
impl<P> AllPoints<P> { pub uninterp spec fn given(&self) -> Seq<Seq<P>>; }
// stand for ``a.flatten()``, ``a.chain(b).flatten()`` and ``a.fold(0, |s, c| s + c.len())``
#[verifier::external_body]
pub fn flat<'a, P, A: PathSource<'a, P>>(a: A) -> (r: AllPoints<P>)
    ensures r.given() == a.rest()
{ unimplemented!() }
#[verifier::external_body]
pub fn chained<'a, P, A: PathSource<'a, P>, B: PathSource<'a, P>>(a: A, b: B) -> (r: AllPoints<P>)
    ensures r.given() == a.rest() + b.rest()
{ unimplemented!() }
#[verifier::external_body]
pub fn count_points<'a, P, A: PathSource<'a, P>>(a: A) -> (r: usize)
    ensures r <= usize::MAX / 2
{ unimplemented!() }
pub trait OverlayResource<'a, P: 'a, T> where P: FloatPointCompatible<T>, T: FloatNumber {
    type ResourceIter: PathSource<'a, P>;
    spec fn contours(&self) -> Seq<Seq<P>>;
    fn iter_paths(&'a self) -> (r: Self::ResourceIter)
        ensures r.rest() == self.contours();
}
//@ item float/source/single.rs struct SingleResourceIterator
//@ item float/source/double.rs struct DoubleResourceIterator
//@ item float/source/triple.rs struct TripleResourceIterator
pub open spec fn points_of<P>(s: Seq<Vec<P>>) -> Seq<Seq<P>> { Seq::new(s.len(), |i: int| s[i]@) }
// the contours of the first n shapes
pub open spec fn contours_of<P>(s: Seq<Vec<Vec<P>>>) -> Seq<Seq<P>>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { points_of(s[0]@) + contours_of(s.skip(1)) }
}
impl<'a, P> SingleResourceIterator<'a, P> {
//@ fn float/source/single.rs SingleResourceIterator<'a,P> with_slice
//@ spec
        ensures r.rest() == seq![slice@]
//@ endfn
}
impl<'a, P> PathSource<'a, P> for SingleResourceIterator<'a, P> {
    open spec fn rest(&self) -> Seq<Seq<P>> { if self.finished { Seq::empty() } else { seq![self.slice@] } }
//@ fn float/source/single.rs Iterator for SingleResourceIterator<'a,P> next
//@ nopub
//@ sub <<<Option<Self::Item>>>> <<<Option<&'a [P]>>>>
//@ entry
        proof { assert(seq![self.slice@].skip(1) =~= Seq::empty()); }
//@ endfn
}
impl<'a, P> DoubleResourceIterator<'a, P> {
//@ fn float/source/double.rs DoubleResourceIterator<'a,P> with_slice
//@ spec
        ensures r.rest() =~= points_of(slice@)
//@ endfn
}
impl<'a, P> PathSource<'a, P> for DoubleResourceIterator<'a, P> {
    open spec fn rest(&self) -> Seq<Seq<P>> { if self.index >= self.slice@.len() { Seq::empty() } else { points_of(self.slice@.skip(self.index as int)) } }
//@ fn float/source/double.rs Iterator for DoubleResourceIterator<'a,P> next
//@ nopub
//@ sub <<<Option<Self::Item>>>> <<<Option<&'a [P]>>>>
//@ exit
        proof { assert(self.rest() =~= old(self).rest().skip(1)); }
//@ endfn
}
impl<'a, P> TripleResourceIterator<'a, P> {
//@ fn float/source/triple.rs TripleResourceIterator<'a,P> with_slice
//@ spec
        ensures r.rest() == contours_of(slice@)
//@ endfn
}
impl<'a, P> PathSource<'a, P> for TripleResourceIterator<'a, P> {
    open spec fn rest(&self) -> Seq<Seq<P>> {
        if self.i >= self.slice@.len() { Seq::empty() }
        else if self.j > self.slice@[self.i as int]@.len() { contours_of(self.slice@.skip(self.i + 1)) }
        else { points_of(self.slice@[self.i as int]@.skip(self.j as int)) + contours_of(self.slice@.skip(self.i + 1)) }
    }
//@ fn float/source/triple.rs Iterator for TripleResourceIterator<'a,P> next
//@ nopub
//@ sub <<<Option<Self::Item>>>> <<<Option<&'a [P]>>>>
//@ loop 0
            invariant self.rest() == old(self).rest(), self.slice == old(self).slice
            decreases self.slice@.len() - self.i
//@ loopbody 0
            let ghost i0 = self.i as int;
            let ghost s0 = self.slice@;
            let ghost j0 = self.j as int;
            proof {
                if j0 < s0[i0]@.len() {
                    let (a, b) = (points_of(s0[i0]@.skip(j0)), contours_of(s0.skip(i0 + 1)));
                    assert((a + b).skip(1) =~= points_of(s0[i0]@.skip(j0 + 1)) + b);
                } else if j0 == s0[i0]@.len() {
                    assert(points_of(s0[i0]@.skip(j0)) + contours_of(s0.skip(i0 + 1)) =~= contours_of(s0.skip(i0 + 1)));
                }
                if i0 + 1 < s0.len() { assert(s0.skip(i0 + 1).skip(1) =~= s0.skip(i0 + 2)); assert(s0[i0 + 1]@.skip(0) =~= s0[i0 + 1]@); }
            }
//@ endfn
}
impl<'a, P: 'a, T> OverlayResource<'a, P, T> for [P] where P: FloatPointCompatible<T>, T: FloatNumber {
    type ResourceIter = SingleResourceIterator<'a, P>;
    open spec fn contours(&self) -> Seq<Seq<P>> { seq![self@] }
//@ fn float/source/single.rs OverlayResource<P,T> for [P] iter_paths
//@ nopub
//@ sub <<<&self>>> <<<&'a self>>>
//@ sub <<<Self::ResourceIter<'_>>>> <<<Self::ResourceIter>>>
//@ endfn
}
impl<'a, P: 'a, T, const N: usize> OverlayResource<'a, P, T> for [P; N] where P: FloatPointCompatible<T>, T: FloatNumber {
    type ResourceIter = SingleResourceIterator<'a, P>;
    open spec fn contours(&self) -> Seq<Seq<P>> { seq![self@] }
//@ fn float/source/single.rs OverlayResource<P,T> for [P;N] iter_paths
//@ nopub
//@ sub <<<&self>>> <<<&'a self>>>
//@ sub <<<Self::ResourceIter<'_>>>> <<<Self::ResourceIter>>>
//@ endfn
}
impl<'a, P: 'a, T> OverlayResource<'a, P, T> for Vec<P> where P: FloatPointCompatible<T>, T: FloatNumber {
    type ResourceIter = SingleResourceIterator<'a, P>;
    open spec fn contours(&self) -> Seq<Seq<P>> { seq![self@] }
//@ fn float/source/single.rs OverlayResource<P,T> for Vec<P> iter_paths
//@ nopub
//@ sub <<<&self>>> <<<&'a self>>>
//@ sub <<<Self::ResourceIter<'_>>>> <<<Self::ResourceIter>>>
//@ endfn
}
impl<'a, 'b, P: 'a, T> OverlayResource<'a, P, T> for &'b [P] where P: FloatPointCompatible<T>, T: FloatNumber {
    type ResourceIter = SingleResourceIterator<'a, P>;
    open spec fn contours(&self) -> Seq<Seq<P>> { seq![self@] }
//@ fn float/source/single.rs OverlayResource<P,T> for &'b[P] iter_paths
//@ nopub
//@ sub <<<&self>>> <<<&'a self>>>
//@ sub <<<Self::ResourceIter<'b>>>> <<<Self::ResourceIter>>>
//@ endfn
}
impl<'a, P: 'a, T> OverlayResource<'a, P, T> for [Vec<P>] where P: FloatPointCompatible<T>, T: FloatNumber {
    type ResourceIter = DoubleResourceIterator<'a, P>;
    open spec fn contours(&self) -> Seq<Seq<P>> { points_of(self@) }
//@ fn float/source/double.rs OverlayResource<P,T> for [Vec<P>] iter_paths
//@ nopub
//@ sub <<<&self>>> <<<&'a self>>>
//@ sub <<<Self::ResourceIter<'_>>>> <<<Self::ResourceIter>>>
//@ endfn
}
impl<'a, P: 'a, T, const N: usize> OverlayResource<'a, P, T> for [Vec<P>; N] where P: FloatPointCompatible<T>, T: FloatNumber {
    type ResourceIter = DoubleResourceIterator<'a, P>;
    open spec fn contours(&self) -> Seq<Seq<P>> { points_of(self@) }
//@ fn float/source/double.rs OverlayResource<P,T> for [Vec<P>;N] iter_paths
//@ nopub
//@ sub <<<&self>>> <<<&'a self>>>
//@ sub <<<Self::ResourceIter<'_>>>> <<<Self::ResourceIter>>>
//@ endfn
}
impl<'a, P: 'a, T> OverlayResource<'a, P, T> for Vec<Vec<P>> where P: FloatPointCompatible<T>, T: FloatNumber {
    type ResourceIter = DoubleResourceIterator<'a, P>;
    open spec fn contours(&self) -> Seq<Seq<P>> { points_of(self@) }
//@ fn float/source/double.rs OverlayResource<P,T> for Vec<Vec<P>> iter_paths
//@ nopub
//@ sub <<<&self>>> <<<&'a self>>>
//@ sub <<<Self::ResourceIter<'_>>>> <<<Self::ResourceIter>>>
//@ endfn
}
impl<'a, 'b, P: 'a, T> OverlayResource<'a, P, T> for &'b [Vec<P>] where P: FloatPointCompatible<T>, T: FloatNumber {
    type ResourceIter = DoubleResourceIterator<'a, P>;
    open spec fn contours(&self) -> Seq<Seq<P>> { points_of(self@) }
//@ fn float/source/double.rs OverlayResource<P,T> for &'b[Vec<P>] iter_paths
//@ nopub
//@ sub <<<&self>>> <<<&'a self>>>
//@ sub <<<Self::ResourceIter<'b>>>> <<<Self::ResourceIter>>>
//@ endfn
}
impl<'a, P: 'a, T> OverlayResource<'a, P, T> for [Vec<Vec<P>>] where P: FloatPointCompatible<T>, T: FloatNumber {
    type ResourceIter = TripleResourceIterator<'a, P>;
    open spec fn contours(&self) -> Seq<Seq<P>> { contours_of(self@) }
//@ fn float/source/triple.rs OverlayResource<P,T> for [Vec<Vec<P>>] iter_paths
//@ nopub
//@ sub <<<&self>>> <<<&'a self>>>
//@ sub <<<Self::ResourceIter<'_>>>> <<<Self::ResourceIter>>>
//@ endfn
}
impl<'a, P: 'a, T, const N: usize> OverlayResource<'a, P, T> for [Vec<Vec<P>>; N] where P: FloatPointCompatible<T>, T: FloatNumber {
    type ResourceIter = TripleResourceIterator<'a, P>;
    open spec fn contours(&self) -> Seq<Seq<P>> { contours_of(self@) }
//@ fn float/source/triple.rs OverlayResource<P,T> for [Vec<Vec<P>>;N] iter_paths
//@ nopub
//@ sub <<<&self>>> <<<&'a self>>>
//@ sub <<<Self::ResourceIter<'_>>>> <<<Self::ResourceIter>>>
//@ endfn
}
impl<'a, P: 'a, T> OverlayResource<'a, P, T> for Vec<Vec<Vec<P>>> where P: FloatPointCompatible<T>, T: FloatNumber {
    type ResourceIter = TripleResourceIterator<'a, P>;
    open spec fn contours(&self) -> Seq<Seq<P>> { contours_of(self@) }
//@ fn float/source/triple.rs OverlayResource<P,T> for Vec<Vec<Vec<P>>> iter_paths
//@ nopub
//@ sub <<<&self>>> <<<&'a self>>>
//@ sub <<<Self::ResourceIter<'_>>>> <<<Self::ResourceIter>>>
//@ endfn
}

// ---- what the float calls mean ----
pub open spec fn with_contours_of<P, T, C: Send>(s: Seq<Segment<C>>, a: FloatPointAdapter<P, T>, c: Seq<Seq<P>>, t: ShapeType) -> Seq<Segment<C>>
    decreases c.len()
{
    if c.len() == 0 { s } else { with_path(with_contours_of(s, a, c.drop_last(), t), ints(a, c.last()), t) }
}
pub open spec fn with_lines_of<P, T>(s: Seq<Segment<ShapeCountString>>, a: FloatPointAdapter<P, T>, c: Seq<Seq<P>>) -> Seq<Segment<ShapeCountString>>
    decreases c.len()
{
    if c.len() == 0 { s } else { with_lines_of(s, a, c.drop_last()) + open_path(ints(a, c.last())) }
}
// the integer shapes become float ones, cleaned when the filter says so
pub open spec fn floated_by<P, T>(i: IntShapes, a: FloatPointAdapter<P, T>, clean: bool, r: Shapes<P>, f: Shapes<P>) -> bool {
    is_float(i, a, f) && if clean { is_cleaned(f, a, r) } else { r == f }
}
pub open spec fn floated<P, T>(i: IntShapes, a: FloatPointAdapter<P, T>, clean: bool, r: Shapes<P>) -> bool { exists|f: Shapes<P>| #[trigger] floated_by(i, a, clean, r, f) }
pub open spec fn float_overlaid<P, T>(a: FloatPointAdapter<P, T>, e: Seq<Segment<ShapeCountBoolean>>, rule: OverlayRule, fill_rule: FillRule, main: ContourDirection, filter: ContourFilter<T>, solver: Solver, r: Shapes<P>) -> bool {
    exists|i: IntShapes| overlaid(e, rule, fill_rule, main, filter.simplify_contour, sqr(a, filter.min_area), solver, i) && #[trigger] floated(i, a, filter.clean_result, r)
}
pub open spec fn float_extracted<P, T>(a: FloatPointAdapter<P, T>, g: OverlayGraph, rule: OverlayRule, main: ContourDirection, filter: ContourFilter<T>, r: Shapes<P>) -> bool {
    exists|i: IntShapes| extracted(g, rule, main, filter.simplify_contour, sqr(a, filter.min_area), i) && #[trigger] floated(i, a, filter.clean_result, r)
}
pub open spec fn float_sliced<P, T>(a: FloatPointAdapter<P, T>, g: StringGraph, rule: StringRule, main: ContourDirection, filter: ContourFilter<T>, r: Shapes<P>) -> bool {
    exists|i: IntShapes| is_sliced(g, rule, main, sqr(a, filter.min_area), i) && #[trigger] floated(i, a, filter.clean_result, r)
}
pub open spec fn float_clipped<P, T>(a: FloatPointAdapter<P, T>, e: Seq<Segment<ShapeCountString>>, fill_rule: FillRule, clip_rule: ClipRule, solver: Solver, r: Paths<P>) -> bool {
    exists|i: Vec<IntPath>| clipped(e, fill_rule, clip_rule, solver, i) && #[trigger] are_floats(i, a, r)
}
pub open spec fn two_sources<P, T>(a: FloatPointAdapter<P, T>, s: Seq<Seq<P>>, c: Seq<Seq<P>>) -> Seq<Segment<ShapeCountBoolean>> {
    with_contours_of(with_contours_of(none(), a, s, ShapeType::Subject), a, c, ShapeType::Clip)
}
pub open spec fn area_and_lines<P, T>(a: FloatPointAdapter<P, T>, s: Seq<Seq<P>>, c: Seq<Seq<P>>) -> Seq<Segment<ShapeCountString>> {
    with_lines_of(with_contours_of(none(), a, s, ShapeType::Subject), a, c)
}
pub proof fn lemma_rest<P>(all: Seq<Seq<P>>, rest: Seq<Seq<P>>, n: int)
    requires 0 <= n < all.len(), rest == all.skip(n)
    ensures rest.skip(1) == all.skip(n + 1), rest[0] == all[n], all.take(n + 1).drop_last() == all.take(n), all.take(n + 1).last() == all[n]
{
    assert(rest.skip(1) =~= all.skip(n + 1));
    assert(all.take(n + 1).drop_last() =~= all.take(n));
}
//@ item float/filter.rs struct ContourFilter
//@ item float/overlay.rs struct FloatOverlay
//@ item float/graph.rs struct FloatOverlayGraph
//@ item float/string_overlay.rs struct FloatStringOverlay
//@ item float/string_graph.rs struct FloatStringGraph
pub open spec fn default_filter<T: FloatNumber>() -> ContourFilter<T> { ContourFilter { min_area: T::zero(), simplify_contour: true, clean_result: T::width() <= 32 } }
impl<T: FloatNumber> Default for ContourFilter<T> {
    open spec fn standard() -> Self { default_filter() }
//@ fn float/filter.rs Default for ContourFilter<T> default
//@ nopub
//@ endfn
}
impl<P: FloatPointCompatible<T>, T: FloatNumber> FloatOverlay<P, T> {
//@ fn float/overlay.rs FloatOverlay<P,T> with_adapter
//@ spec
        ensures r.overlay.segments@ == none::<ShapeCountBoolean>(), r.adapter == adapter
//@ endfn
//@ fn float/overlay.rs FloatOverlay<P,T> with_subj_and_clip
//@ sub <<<<R0, R1>(subj: &R0, clip: &R1)>>> <<<<'a, R0, R1>(subj: &'a R0, clip: &'a R1)>>>
//@ sub <<<OverlayResource<P, T>>>> <<<OverlayResource<'a, P, T>>>>
//@ sub <<<, P: FloatPointCompatible<T>, T: FloatNumber>>> <<<, P: 'a>>>
//@ sub <<<let iter = $A.chain($B).flatten();>>> <<<let iter = chained($A, $B);>>>
//@ sub <<<let subj_capacity = $A.fold(0, |s, c| s + c.len());>>> <<<let subj_capacity = count_points($A);>>>
//@ sub <<<let clip_capacity = $A.fold(0, |s, c| s + c.len());>>> <<<let clip_capacity = count_points($A);>>>
//@ spec
        ensures is_adapter(subj.contours() + clip.contours(), r.adapter), r.overlay.segments@ == two_sources(r.adapter, subj.contours(), clip.contours())
//@ endfn
//@ fn float/overlay.rs FloatOverlay<P,T> with_subj
//@ sub <<<<R>(subj: &R)>>> <<<<'a, R>(subj: &'a R)>>>
//@ sub <<<OverlayResource<P, T>>>> <<<OverlayResource<'a, P, T>>>>
//@ sub <<<, P: FloatPointCompatible<T>, T: FloatNumber>>> <<<, P: 'a>>>
//@ sub <<<let iter = $A.flatten();>>> <<<let iter = flat($A);>>>
//@ sub <<<let subj_capacity = $A.fold(0, |s, c| s + c.len());>>> <<<let subj_capacity = count_points($A);>>>
//@ spec
        ensures is_adapter(subj.contours(), r.adapter), r.overlay.segments@ == with_contours_of(none::<ShapeCountBoolean>(), r.adapter, subj.contours(), ShapeType::Subject)
//@ endfn
//@ fn float/overlay.rs FloatOverlay<P,T> unsafe_add_source
//@ sub <<<<R: OverlayResource<P, T> +?Sized>>>> <<<<'a, R: OverlayResource<'a, P, T> + ?Sized>>>>
//@ sub <<<resource: &R>>> <<<resource: &'a R>>>
//@ sub <<<for contour in $I.iter_paths() $B>>> <<<let mut it = $I.iter_paths(); loop { match it.next() { Some(contour) => $B, None => break } }>>>
//@ spec
        where P: 'a
        ensures r.adapter == self.adapter, r.overlay.segments@ == with_contours_of(self.overlay.segments@, self.adapter, resource.contours(), shape_type)
//@ entry
        let ghost c = resource.contours();
        let ghost mut n: int = 0;
//@ loop 0
            invariant vx_self.adapter == self.adapter, c == resource.contours(), 0 <= n <= c.len(), it.rest() == c.skip(n),
                vx_self.overlay.segments@ == with_contours_of(self.overlay.segments@, self.adapter, c.take(n), shape_type)
            ensures n == c.len()
            decreases it.rest().len()
//@ loopbody 0
            proof { if n < c.len() { lemma_rest(c, it.rest(), n); n = n + 1; } }
//@ after_loop 0
        assert(c.take(n) =~= c);
//@ endfn
//@ fn float/overlay.rs FloatOverlay<P,T> unsafe_add_contour
//@ sub <<<$C.iter().map(|p| $A.float_to_int(p))>>> <<<converted($C, &$A)>>>
//@ spec
        ensures r.adapter == self.adapter, r.overlay.segments@ == with_path(self.overlay.segments@, ints(self.adapter, contour@), shape_type)
//@ endfn
//@ fn float/overlay.rs FloatOverlay<P,T> into_graph
//@ spec
        ensures r.adapter == self.adapter, graphed(self.overlay.segments@, fill_rule, Filtered::Filler, default_solver(), r.graph)
//@ endfn
//@ fn float/overlay.rs FloatOverlay<P,T> into_graph_with_solver
//@ spec
        ensures r.adapter == self.adapter, graphed(self.overlay.segments@, fill_rule, Filtered::Filler, solver, r.graph)
//@ endfn
//@ fn float/overlay.rs FloatOverlay<P,T> overlay
//@ spec
        ensures float_overlaid(self.adapter, self.overlay.segments@, overlay_rule, fill_rule, ContourDirection::CounterClockwise, default_filter(), default_solver(), r)
//@ endfn
//@ fn float/overlay.rs FloatOverlay<P,T> overlay_custom
//@ sub <<<shapes.to_float($A)>>> <<<shapes_to_float(&shapes, $A)>>>
//@ sub <<<float.simplify_contour($A)>>> <<<clean(&mut float, $A)>>>
//@ spec
        ensures float_overlaid(self.adapter, self.overlay.segments@, overlay_rule, fill_rule, main_direction, filter, solver, r)
//@ after float
        let ghost f0 = float;
        proof {
            if filter.clean_result {
                assert forall|r: Shapes<P>| #[trigger] is_cleaned(f0, self.adapter, r) implies floated(shapes, self.adapter, true, r) by { assert(floated_by(shapes, self.adapter, true, r, f0)); }
            } else {
                assert(floated_by(shapes, self.adapter, false, f0, f0));
                assert(floated(shapes, self.adapter, false, f0));
            }
        }
//@ endfn
}
impl<P: FloatPointCompatible<T>, T: FloatNumber> FloatOverlayGraph<P, T> {
//@ fn float/graph.rs FloatOverlayGraph<P,T> new
//@ spec
        ensures r.graph == graph, r.adapter == adapter
//@ endfn
//@ fn float/graph.rs FloatOverlayGraph<P,T> extract_shapes
//@ spec
        ensures float_extracted(self.adapter, self.graph, overlay_rule, ContourDirection::CounterClockwise, default_filter(), r)
//@ endfn
//@ fn float/graph.rs FloatOverlayGraph<P,T> extract_shapes_custom
//@ sub <<<shapes.to_float($A)>>> <<<shapes_to_float(&shapes, $A)>>>
//@ sub <<<float.simplify_contour($A)>>> <<<clean(&mut float, $A)>>>
//@ spec
        ensures float_extracted(self.adapter, self.graph, overlay_rule, main_direction, filter, r)
//@ after float
        let ghost f0 = float;
        proof {
            if filter.clean_result {
                assert forall|r: Shapes<P>| #[trigger] is_cleaned(f0, self.adapter, r) implies floated(shapes, self.adapter, true, r) by { assert(floated_by(shapes, self.adapter, true, r, f0)); }
            } else {
                assert(floated_by(shapes, self.adapter, false, f0, f0));
                assert(floated(shapes, self.adapter, false, f0));
            }
        }
//@ endfn
}
// ---- the float calls over lines ----
impl<P: FloatPointCompatible<T>, T: FloatNumber> FloatStringOverlay<P, T> {
//@ fn float/string_overlay.rs FloatStringOverlay<P,T> with_adapter
//@ spec
        ensures r.overlay.segments@ == none::<ShapeCountString>(), r.adapter == adapter
//@ exit
        assert(Seq::<Segment<ShapeCountString>>::empty() == none::<ShapeCountString>());
//@ sub <<<Self { overlay: $O, adapter }>>> <<<{ let o = $O; proof { assert(o.segments@ =~= none::<ShapeCountString>()); } Self { overlay: o, adapter } }>>>
//@ endfn
//@ fn float/string_overlay.rs FloatStringOverlay<P,T> with_shape_and_string
//@ sub <<<<R0, R1>(shape: &R0, string: &R1)>>> <<<<'a, R0, R1>(shape: &'a R0, string: &'a R1)>>>
//@ sub <<<OverlayResource<P, T>>>> <<<OverlayResource<'a, P, T>>>>
//@ sub <<<, P: FloatPointCompatible<T>, T: FloatNumber>>> <<<, P: 'a>>>
//@ sub <<<let iter = $A.chain($B).flatten();>>> <<<let iter = chained($A, $B);>>>
//@ sub <<<let shape_capacity = $A.fold(0, |s, c| s + c.len());>>> <<<let shape_capacity = count_points($A);>>>
//@ sub <<<let string_capacity = $A.fold(0, |s, c| s + c.len());>>> <<<let string_capacity = count_points($A);>>>
//@ spec
        ensures is_adapter(shape.contours() + string.contours(), r.adapter), r.overlay.segments@ == area_and_lines(r.adapter, shape.contours(), string.contours())
//@ endfn
//@ fn float/string_overlay.rs FloatStringOverlay<P,T> unsafe_add_shapes
//@ sub <<<<S: OverlayResource<P, T>>>>> <<<<'a, S: OverlayResource<'a, P, T>>>>>
//@ sub <<<source: &S>>> <<<source: &'a S>>>
//@ sub <<<for contour in $I.iter_paths() $B>>> <<<let mut it = $I.iter_paths(); loop { match it.next() { Some(contour) => $B, None => break } }>>>
//@ spec
        where P: 'a
        ensures r.adapter == self.adapter, r.overlay.segments@ == with_contours_of(self.overlay.segments@, self.adapter, source.contours(), ShapeType::Subject)
//@ entry
        let ghost c = source.contours();
        let ghost mut n: int = 0;
//@ loop 0
            invariant vx_self.adapter == self.adapter, c == source.contours(), 0 <= n <= c.len(), it.rest() == c.skip(n),
                vx_self.overlay.segments@ == with_contours_of(self.overlay.segments@, self.adapter, c.take(n), ShapeType::Subject)
            ensures n == c.len()
            decreases it.rest().len()
//@ loopbody 0
            proof { if n < c.len() { lemma_rest(c, it.rest(), n); n = n + 1; } }
//@ after_loop 0
        assert(c.take(n) =~= c);
//@ endfn
//@ fn float/string_overlay.rs FloatStringOverlay<P,T> unsafe_add_string_lines
//@ sub <<<<S: OverlayResource<P, T>>>>> <<<<'a, S: OverlayResource<'a, P, T>>>>>
//@ sub <<<resource: &S>>> <<<resource: &'a S>>>
//@ sub <<<for path in $I.iter_paths() $B>>> <<<let mut it = $I.iter_paths(); loop { match it.next() { Some(path) => $B, None => break } }>>>
//@ spec
        where P: 'a
        ensures r.adapter == self.adapter, r.overlay.segments@ == with_lines_of(self.overlay.segments@, self.adapter, resource.contours())
//@ entry
        let ghost c = resource.contours();
        let ghost mut n: int = 0;
//@ loop 0
            invariant vx_self.adapter == self.adapter, c == resource.contours(), 0 <= n <= c.len(), it.rest() == c.skip(n),
                vx_self.overlay.segments@ == with_lines_of(self.overlay.segments@, self.adapter, c.take(n))
            ensures n == c.len()
            decreases it.rest().len()
//@ loopbody 0
            proof { if n < c.len() { lemma_rest(c, it.rest(), n); n = n + 1; } }
//@ after_loop 0
        assert(c.take(n) =~= c);
//@ endfn
//@ fn float/string_overlay.rs FloatStringOverlay<P,T> unsafe_add_shape_contour
//@ sub <<<$C.iter().map(|p| $A.float_to_int(p))>>> <<<converted($C, &$A)>>>
//@ spec
        ensures r.adapter == self.adapter, r.overlay.segments@ == with_path(self.overlay.segments@, ints(self.adapter, contour@), ShapeType::Subject)
//@ endfn
//@ fn float/string_overlay.rs FloatStringOverlay<P,T> unsafe_add_string_line
//@ sub <<<for w in path.windows(2) $B>>> <<<for k in 1..path.len() { let w = [path[k - 1], path[k]]; $B }>>>
//@ spec
        ensures r.adapter == self.adapter, r.overlay.segments@ == self.overlay.segments@ + open_path(ints(self.adapter, path@))
//@ entry
        let ghost s0 = self.overlay.segments@;
        let ghost q = ints(self.adapter, path@);
        proof { reveal_with_fuel(steps, 1); assert(s0 =~= s0 + steps(q[0], q.skip(1), 0)); assert(s0 =~= s0 + Seq::<Segment<ShapeCountString>>::empty()); }
//@ before_loop 0
        assert(vx_self.overlay.segments@ == s0 + steps(q[0], q.skip(1), 0));
//@ loop 0
            invariant vx_self.adapter == self.adapter, q == ints(self.adapter, path@), q.len() == path@.len(), s0 == self.overlay.segments@, q.len() < 2 ==> vx_self.overlay.segments@ == s0,
                q.len() >= 2 ==> vx_self.overlay.segments@ == s0 + steps(q[0], q.skip(1), k - 1)
//@ loopend 0
            assert(vx_self.overlay.segments@ =~= s0 + steps(q[0], q.skip(1), k as int));
//@ endfn
//@ fn float/string_overlay.rs FloatStringOverlay<P,T> into_graph
//@ spec
        ensures r.adapter == self.adapter, strung(self.overlay.segments@, fill_rule, FilteredString::All, default_solver(), r.graph)
//@ endfn
//@ fn float/string_overlay.rs FloatStringOverlay<P,T> into_graph_with_solver
//@ spec
        ensures r.adapter == self.adapter, strung(self.overlay.segments@, fill_rule, FilteredString::All, solver, r.graph)
//@ endfn
//@ fn float/string_overlay.rs FloatStringOverlay<P,T> clip_string_lines_with_solver
//@ sub <<<paths.to_float($A)>>> <<<paths_to_float(&paths, $A)>>>
//@ spec
        ensures float_clipped(self.adapter, self.overlay.segments@, fill_rule, clip_rule, solver, r)
//@ endfn
}
impl<P: FloatPointCompatible<T>, T: FloatNumber> FloatStringGraph<P, T> {
//@ fn float/string_graph.rs FloatStringGraph<P,T> extract_shapes
//@ spec
        ensures float_sliced(self.adapter, self.graph, string_rule, ContourDirection::CounterClockwise, default_filter(), r)
//@ endfn
//@ fn float/string_graph.rs FloatStringGraph<P,T> extract_shapes_custom
//@ sub <<<shapes.to_float($A)>>> <<<shapes_to_float(&shapes, $A)>>>
//@ sub <<<float.simplify_contour($A)>>> <<<clean(&mut float, $A)>>>
//@ spec
        ensures float_sliced(self.adapter, self.graph, string_rule, main_direction, filter, r)
//@ after float
        let ghost f0 = float;
        proof {
            if filter.clean_result {
                assert forall|r: Shapes<P>| #[trigger] is_cleaned(f0, self.adapter, r) implies floated(shapes, self.adapter, true, r) by { assert(floated_by(shapes, self.adapter, true, r, f0)); }
            } else {
                assert(floated_by(shapes, self.adapter, false, f0, f0));
                assert(floated(shapes, self.adapter, false, f0));
            }
        }
//@ endfn
}

// ---- the one-call forms ----
pub open spec fn simplified_float<P, T>(s: Seq<Seq<P>>, fill_rule: FillRule, main: ContourDirection, min_area: T, solver: Solver, r: Shapes<P>) -> bool {
    exists|a: FloatPointAdapter<P, T>| is_adapter(s, a) && #[trigger] float_overlaid(a, with_contours_of(none(), a, s, ShapeType::Subject), OverlayRule::Subject, fill_rule, main,
        ContourFilter { min_area, simplify_contour: true, clean_result: true }, solver, r)
}
pub open spec fn overlaid_float<P, T: FloatNumber>(s: Seq<Seq<P>>, c: Seq<Seq<P>>, rule: OverlayRule, fill_rule: FillRule, r: Shapes<P>) -> bool {
    exists|a: FloatPointAdapter<P, T>| is_adapter(s + c, a) && #[trigger] float_overlaid(a, two_sources(a, s, c), rule, fill_rule, ContourDirection::CounterClockwise, default_filter(), default_solver(), r)
}
pub open spec fn clipped_float<P, T: FloatNumber>(s: Seq<Seq<P>>, c: Seq<Seq<P>>, fill_rule: FillRule, clip_rule: ClipRule, solver: Solver, r: Paths<P>) -> bool {
    exists|a: FloatPointAdapter<P, T>| is_adapter(s + c, a) && #[trigger] float_clipped(a, area_and_lines(a, s, c), fill_rule, clip_rule, solver, r)
}
pub open spec fn sliced_float<P, T: FloatNumber>(s: Seq<Seq<P>>, c: Seq<Seq<P>>, fill_rule: FillRule, main: ContourDirection, filter: ContourFilter<T>, solver: Solver, r: Shapes<P>) -> bool {
    exists|a: FloatPointAdapter<P, T>, g: StringGraph| is_adapter(s + c, a) && strung(area_and_lines(a, s, c), fill_rule, FilteredString::All, solver, g)
        && #[trigger] float_sliced(a, g, StringRule::Slice, main, filter, r)
}
pub trait SimplifyShape<'a, P: 'a, T>: OverlayResource<'a, P, T> where P: FloatPointCompatible<T>, T: FloatNumber {
    fn simplify_shape(&'a self, fill_rule: FillRule, main_direction: ContourDirection, min_area: T) -> (r: Shapes<P>)
        ensures simplified_float(self.contours(), fill_rule, main_direction, min_area, default_solver(), r);
    fn simplify_shape_with_solver(&'a self, fill_rule: FillRule, main_direction: ContourDirection, min_area: T, solver: Solver) -> (r: Shapes<P>)
        ensures simplified_float(self.contours(), fill_rule, main_direction, min_area, solver, r);
}
impl<'a, S, P: 'a, T> SimplifyShape<'a, P, T> for S where S: OverlayResource<'a, P, T>, P: FloatPointCompatible<T>, T: FloatNumber {
//@ fn float/simplify.rs SimplifyShape<P,T> for S simplify_shape
//@ nopub
//@ sub <<<&self>>> <<<&'a self>>>
//@ endfn
//@ fn float/simplify.rs SimplifyShape<P,T> for S simplify_shape_with_solver
//@ nopub
//@ sub <<<&self>>> <<<&'a self>>>
//@ endfn
}
pub trait SingleFloatOverlay<'a, R1, P: 'a, T>: OverlayResource<'a, P, T> where R1: OverlayResource<'a, P, T>, P: FloatPointCompatible<T>, T: FloatNumber {
    fn overlay(&'a self, resource: &'a R1, overlay_rule: OverlayRule, fill_rule: FillRule) -> (r: Shapes<P>)
        ensures overlaid_float::<P, T>(self.contours(), resource.contours(), overlay_rule, fill_rule, r);
}
impl<'a, R0, R1, P: 'a, T> SingleFloatOverlay<'a, R1, P, T> for R0 where R0: OverlayResource<'a, P, T>, R1: OverlayResource<'a, P, T>, P: FloatPointCompatible<T>, T: FloatNumber {
//@ fn float/single.rs SingleFloatOverlay<R0,R1,P,T> for R0 overlay
//@ nopub
//@ sub <<<&self, resource: &R1>>> <<<&'a self, resource: &'a R1>>>
//@ endfn
}
pub trait FloatClip<'a, R, P: 'a, T>: OverlayResource<'a, P, T> where R: OverlayResource<'a, P, T>, P: FloatPointCompatible<T>, T: FloatNumber {
    fn clip_by(&'a self, resource: &'a R, fill_rule: FillRule, clip_rule: ClipRule) -> (r: Paths<P>)
        ensures clipped_float::<P, T>(resource.contours(), self.contours(), fill_rule, clip_rule, default_solver(), r);
    fn clip_by_with_solver(&'a self, resource: &'a R, fill_rule: FillRule, clip_rule: ClipRule, solver: Solver) -> (r: Paths<P>)
        ensures clipped_float::<P, T>(resource.contours(), self.contours(), fill_rule, clip_rule, solver, r);
}
impl<'a, R0, R1, P: 'a, T> FloatClip<'a, R0, P, T> for R1 where R0: OverlayResource<'a, P, T>, R1: OverlayResource<'a, P, T>, P: FloatPointCompatible<T>, T: FloatNumber {
//@ fn float/clip.rs FloatClip<R0,P,T> for R1 clip_by
//@ nopub
//@ sub <<<&self, resource: &R0>>> <<<&'a self, resource: &'a R0>>>
//@ endfn
//@ fn float/clip.rs FloatClip<R0,P,T> for R1 clip_by_with_solver
//@ nopub
//@ sub <<<&self, resource: &R0>>> <<<&'a self, resource: &'a R0>>>
//@ endfn
}
pub trait FloatSlice<'a, R, P: 'a, T>: OverlayResource<'a, P, T> where R: OverlayResource<'a, P, T>, P: FloatPointCompatible<T>, T: FloatNumber {
    fn slice_by(&'a self, resource: &'a R, fill_rule: FillRule) -> (r: Shapes<P>)
        ensures sliced_float::<P, T>(self.contours(), resource.contours(), fill_rule, ContourDirection::CounterClockwise, default_filter(), default_solver(), r);
    fn slice_custom_by(&'a self, resource: &'a R, fill_rule: FillRule, main_direction: ContourDirection, filter: ContourFilter<T>, solver: Solver) -> (r: Shapes<P>)
        ensures sliced_float::<P, T>(self.contours(), resource.contours(), fill_rule, main_direction, filter, solver, r);
}
impl<'a, R0, R1, P: 'a, T> FloatSlice<'a, R0, P, T> for R1 where R0: OverlayResource<'a, P, T>, R1: OverlayResource<'a, P, T>, P: FloatPointCompatible<T>, T: FloatNumber {
//@ fn float/slice.rs FloatSlice<R0,P,T> for R1 slice_by
//@ nopub
//@ sub <<<&self, resource: &R0>>> <<<&'a self, resource: &'a R0>>>
//@ endfn
//@ fn float/slice.rs FloatSlice<R0,P,T> for R1 slice_custom_by
//@ nopub
//@ sub <<<&self, resource: &R0>>> <<<&'a self, resource: &'a R0>>>
//@ endfn
}
}
fn main() {}
