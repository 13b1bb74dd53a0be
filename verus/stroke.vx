// ---- mesh/stroke: the edges of a stroke balance at every point ----
//@ import mesh.vx
verus! {
//@ item mesh/stroke/section.rs struct Section
pub open spec fn at_top<P: FloatPointCompatible<T>, T: FloatNumber>(c: FloatPointAdapter<P, T>, s: Section<P, T>, end: bool) -> IntPoint { if end { to_int(c, s.b_top) } else { to_int(c, s.a_top) } }
pub open spec fn at_bot<P: FloatPointCompatible<T>, T: FloatNumber>(c: FloatPointAdapter<P, T>, s: Section<P, T>, end: bool) -> IntPoint { if end { to_int(c, s.b_bot) } else { to_int(c, s.a_bot) } }
pub fn same_section<P: FloatPointCompatible<T>, T: FloatNumber>(s: &Section<P, T>) -> (r: Section<P, T>)
    ensures r == *s
{
    Section { a: s.a, b: s.b, a_top: s.a_top, b_top: s.b_top, a_bot: s.a_bot, b_bot: s.b_bot, dir: s.dir, _phantom: s._phantom }
}
impl<T: FloatNumber, P: FloatPointCompatible<T>> Section<P, T> {
//@ fn mesh/stroke/section.rs Section<P,T> new
//@ spec
        ensures r.a == *a, r.b == *b
//@ sub <<<_phantom: Default::default()>>> <<<_phantom: PhantomData>>>
//@ endfn
}
// the two sides of a section: back along the top, on along the bottom
pub open spec fn sides_led<P: FloatPointCompatible<T>, T: FloatNumber>(c: FloatPointAdapter<P, T>, s: Section<P, T>, o: Seq<Edge>, n: Seq<Edge>) -> bool {
    led_two(o, n, at_top(c, s, true), at_top(c, s, false), at_bot(c, s, false), at_bot(c, s, true))
}
// a join takes both sides on to the next section
pub open spec fn joined<P: FloatPointCompatible<T>, T: FloatNumber>(c: FloatPointAdapter<P, T>, s0: Section<P, T>, s1: Section<P, T>, o: Seq<Edge>, n: Seq<Edge>) -> bool {
    led_two(o, n, at_top(c, s1, false), at_top(c, s0, true), at_bot(c, s0, true), at_bot(c, s1, false))
}
pub trait SectionToSegment<T: FloatNumber, P: FloatPointCompatible<T>>: Sized {
    spec fn edges(&self) -> Seq<Edge>;
    fn add_section(&mut self, section: &Section<P, T>, adapter: &FloatPointAdapter<P, T>)
        requires edges_ok(old(self).edges())
        ensures sides_led(*adapter, *section, old(self).edges(), final(self).edges());
}
impl<T: FloatNumber, P: FloatPointCompatible<T>> SectionToSegment<T, P> for Vec<Edge> {
    open spec fn edges(&self) -> Seq<Edge> { self@ }
//@ fn mesh/stroke/section.rs SectionToSegment<T, P> for Vec<Segment<OffsetCountBoolean>> add_section
//@ nopub
//@ entry
        broadcast use {lemma_flow_push, lemma_push_ok};
//@ endfn
}
pub trait JoinBuilder<P: FloatPointCompatible<T>, T: FloatNumber> {
    fn add_join(&self, s0: &Section<P, T>, s1: &Section<P, T>, adapter: &FloatPointAdapter<P, T>, segments: &mut Vec<Edge>)
        requires edges_ok(old(segments)@)
        ensures joined(*adapter, *s0, *s1, old(segments)@, final(segments)@);
}
pub struct BevelJoinBuilder;
impl BevelJoinBuilder {
//@ fn mesh/stroke/builder_join.rs BevelJoinBuilder add_segment
//@ spec
        requires edges_ok(old(segments)@)
        ensures led(old(segments)@, final(segments)@, to_int(*adapter, *b), to_int(*adapter, *a))
//@ entry
        broadcast use {lemma_flow_push, lemma_push_ok};
//@ endfn
//@ fn mesh/stroke/builder_join.rs BevelJoinBuilder join_top
//@ spec
        requires edges_ok(old(segments)@)
        ensures led(old(segments)@, final(segments)@, at_top(*adapter, *s1, false), at_top(*adapter, *s0, true))
//@ endfn
//@ fn mesh/stroke/builder_join.rs BevelJoinBuilder join_bot
//@ spec
        requires edges_ok(old(segments)@)
        ensures led(old(segments)@, final(segments)@, at_bot(*adapter, *s0, true), at_bot(*adapter, *s1, false))
//@ endfn
}
impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for BevelJoinBuilder {
//@ fn mesh/stroke/builder_join.rs JoinBuilder<P,T> for BevelJoinBuilder add_join
//@ nopub
//@ endfn
}
//@ item mesh/stroke/builder_join.rs struct MiterJoinBuilder
impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for MiterJoinBuilder<T> {
//@ fn mesh/stroke/builder_join.rs JoinBuilder<P,T> for MiterJoinBuilder<T> add_join
//@ nopub
//@ entry
        broadcast use {total_floats, lemma_flow_push, lemma_push_ok};
//@ endfn
}
//@ item mesh/stroke/builder_join.rs struct RoundJoinBuilder
impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for RoundJoinBuilder<T> {
//@ fn mesh/stroke/builder_join.rs JoinBuilder<P,T> for RoundJoinBuilder<T> add_join
//@ nopub
//@ sub <<<dot_product.to_f64().clamp($A, $B).acos()>>> <<<within(dot_product.to_f64(), $A, $B).acos()>>>
//@ sub <<<-delta_angle>>> <<<opposite(delta_angle)>>>
//@ sub <<<n as usize>>> <<<whole(n)>>>
//@ sub <<<Rotator::<T>::with_angle($A)>>> <<<rotator_of::<T>($A)>>>
//@ sub <<<let center = s0.b;>>> <<<let ghost e1 = segments@; let center = s0.b;>>>
//@ entry
        broadcast use {total_floats, lemma_flow_push, lemma_push_ok};
//@ loop 0
            invariant
                edges_ok(e1), led(e1, segments@, a, to_int(*adapter, start)),
//@ loopbody 0
            broadcast use {total_floats, lemma_flow_push, lemma_push_ok};
//@ endfn
}
//@ item mesh/stroke/builder_cap.rs struct CapBuilder
impl<T: FloatNumber, P: FloatPointCompatible<T>> CapBuilder<P, T> {
//@ fn mesh/stroke/builder_cap.rs CapBuilder<P,T> add_to_start
//@ spec
        requires edges_ok(old(segments)@)
        ensures led(old(segments)@, final(segments)@, at_top(*adapter, *section, false), at_bot(*adapter, *section, false))
//@ index_loops
//@ entry
        broadcast use {total_floats, lemma_flow_push, lemma_push_ok};
        let ghost e0 = segments@;
//@ loop 0
            invariant
                edges_ok(e0), led(e0, segments@, to_int(*adapter, section.a_top), a),
//@ loopbody 0
            broadcast use {total_floats, lemma_flow_push, lemma_push_ok};
//@ endfn
//@ fn mesh/stroke/builder_cap.rs CapBuilder<P,T> add_to_end
//@ spec
        requires edges_ok(old(segments)@)
        ensures led(old(segments)@, final(segments)@, at_bot(*adapter, *section, true), at_top(*adapter, *section, true))
//@ index_loops
//@ entry
        broadcast use {total_floats, lemma_flow_push, lemma_push_ok};
        let ghost e0 = segments@;
//@ loop 0
            invariant
                edges_ok(e0), led(e0, segments@, to_int(*adapter, section.b_bot), a),
//@ loopbody 0
            broadcast use {total_floats, lemma_flow_push, lemma_push_ok};
//@ endfn
}

// ---- whole paths ----
//@ item mesh/stroke/builder.rs struct Builder
pub trait StrokeBuild<P: FloatPointCompatible<T>, T: FloatNumber> {
    fn build(&self, path: &[P], is_closed_path: bool, adapter: &FloatPointAdapter<P, T>, segments: &mut Vec<Edge>)
        requires edges_ok(old(segments)@)
        ensures banded(*adapter, path@, old(segments)@, final(segments)@);
}
impl<J: JoinBuilder<P, T>, P: FloatPointCompatible<T>, T: FloatNumber> StrokeBuild<P, T> for Builder<J, P, T> {
//@ fn mesh/stroke/builder.rs StrokeBuild<P, T> for Builder<J, P, T> build
//@ nopub
//@ endfn
}
impl<J: JoinBuilder<P, T>, P: FloatPointCompatible<T>, T: FloatNumber> Builder<J, P, T> {
//@ fn mesh/stroke/builder.rs Builder<J,P,T> next_unique_point
//@ index_loops
//@ spec
        requires start < path.len(), index <= path.len()
        ensures
            r == usize::MAX ==> forall|j: int| index <= j < path.len() ==> to_int(*adapter, #[trigger] path[j]) == to_int(*adapter, path[start as int]),
            r != usize::MAX ==> index <= r < path.len() && to_int(*adapter, path[r as int]) != to_int(*adapter, path[start as int])
                && forall|j: int| index <= j < r ==> to_int(*adapter, #[trigger] path[j]) == to_int(*adapter, path[start as int]),
//@ loop 0
            invariant
                a == to_int(*adapter, path[start as int]),
                forall|j: int| index <= j < it0 ==> to_int(*adapter, #[trigger] path[j]) == a,
//@ endfn
//@ fn mesh/stroke/builder.rs Builder<J,P,T> open_segments
//@ attr #[verifier::loop_isolation(false)]
//@ spec
        requires edges_ok(old(segments)@)
        ensures banded(*adapter, path@, old(segments)@, final(segments)@)
//@ entry
        let ghost e0 = segments@;
//@ loop 0
            invariant
                segments@ == e0, 1 <= j < n, ip0 == to_int(*adapter, path[0]), ip == to_int(*adapter, path[j as int]),
                forall|k: int| 0 <= k < j ==> to_int(*adapter, #[trigger] path[k]) == ip0,
            decreases n - j,
//@ loop 1
            invariant
                1 <= j <= n, !is_dot(*adapter, path@),
                led(e0, segments@, at_top(*adapter, s0, true), at_bot(*adapter, s0, true)),
            decreases n - j, one(j < n && to_int(*adapter, path[j as int]) != ip0),
//@ loopbody 1
            let ghost j0 = j;
//@ loop 2
            invariant
                j0 <= j < n, *p == path[j as int], ip == to_int(*adapter, *p),
                led(e0, segments@, at_top(*adapter, s0, true), at_bot(*adapter, s0, true)),
            decreases n - j,
//@ sub <<<let s1 = Section::new($A);>>> <<<let ghost e1 = segments@; let s1 = Section::new($A);>>>
//@ endfn
//@ fn mesh/stroke/builder.rs Builder<J,P,T> closed_segments
//@ spec
        requires edges_ok(old(segments)@)
        ensures banded(*adapter, path@, old(segments)@, final(segments)@)
//@ sub <<<start.clone()>>> <<<same_section(&start)>>>
//@ entry
        let ghost e0 = segments@;
//@ loop 0
            invariant
                !is_dot(*adapter, path@), edges_ok(e0), i == usize::MAX || i < path.len(),
                led_two(e0, segments@, at_top(*adapter, s0, true), at_top(*adapter, start, false), at_bot(*adapter, start, false), at_bot(*adapter, s0, true)),
            decreases usize::MAX - i,
//@ endfn
}
}
fn main() {}
