// ---- mesh/outline: the edges of an outline balance at every point ----
//@ import mesh.vx
verus! {
//@ item mesh/outline/section.rs struct Section
pub fn same_section<P: FloatPointCompatible<T>, T: FloatNumber>(s: &Section<P, T>) -> (r: Section<P, T>)
    ensures r == *s
{
    Section { b: s.b, a_top: s.a_top, b_top: s.b_top, dir: s.dir, _phantom: s._phantom }
}
impl<T: FloatNumber, P: FloatPointCompatible<T>> Section<P, T> {
//@ fn mesh/outline/section.rs Section<P,T> new
//@ spec
        ensures r.b == *b
//@ sub <<<_phantom: Default::default()>>> <<<_phantom: PhantomData>>>
//@ endfn
}
pub trait SectionToSegment<T: FloatNumber, P: FloatPointCompatible<T>>: Sized {
    spec fn edges(&self) -> Seq<Edge>;
    fn add_section(&mut self, section: &Section<P, T>, adapter: &FloatPointAdapter<P, T>)
        requires edges_ok(old(self).edges())
        ensures led(old(self).edges(), final(self).edges(), to_int(*adapter, section.a_top), to_int(*adapter, section.b_top));
}
impl<T: FloatNumber, P: FloatPointCompatible<T>> SectionToSegment<T, P> for Vec<Edge> {
    open spec fn edges(&self) -> Seq<Edge> { self@ }
//@ fn mesh/outline/section.rs SectionToSegment<T, P> for Vec<Segment<OffsetCountBoolean>> add_section
//@ nopub
//@ entry
        broadcast use {lemma_flow_push, lemma_push_ok};
//@ endfn
}
pub trait JoinBuilder<P: FloatPointCompatible<T>, T: FloatNumber> {
    fn add_join(&self, s0: &Section<P, T>, s1: &Section<P, T>, adapter: &FloatPointAdapter<P, T>, segments: &mut Vec<Edge>)
        requires edges_ok(old(segments)@)
        ensures led(old(segments)@, final(segments)@, to_int(*adapter, s0.b_top), to_int(*adapter, s1.a_top));
}
pub struct BevelJoinBuilder;
impl BevelJoinBuilder {
//@ fn mesh/outline/builder_join.rs BevelJoinBuilder add_weak_segment
//@ spec
        requires edges_ok(old(segments)@)
        ensures led(old(segments)@, final(segments)@, to_int(*adapter, *a), to_int(*adapter, *b))
//@ entry
        broadcast use {lemma_flow_push, lemma_push_ok};
//@ endfn
//@ fn mesh/outline/builder_join.rs BevelJoinBuilder join_weak
//@ spec
        requires edges_ok(old(segments)@)
        ensures led(old(segments)@, final(segments)@, to_int(*adapter, s0.b_top), to_int(*adapter, s1.a_top))
//@ endfn
}
impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for BevelJoinBuilder {
//@ fn mesh/outline/builder_join.rs JoinBuilder<P,T> for BevelJoinBuilder add_join
//@ nopub
//@ endfn
}
//@ item mesh/outline/builder_join.rs struct MiterJoinBuilder
impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for MiterJoinBuilder<T> {
//@ fn mesh/outline/builder_join.rs JoinBuilder<P,T> for MiterJoinBuilder<T> add_join
//@ nopub
//@ sub <<<ia.sqr_distance(ib)>>> <<<sqr_distance(ia, ib)>>>
//@ entry
        broadcast use {total_floats, lemma_flow_push, lemma_push_ok};
//@ endfn
}
//@ item mesh/outline/builder_join.rs struct RoundJoinBuilder
impl<T: FloatNumber, P: FloatPointCompatible<T>> JoinBuilder<P, T> for RoundJoinBuilder<T> {
//@ fn mesh/outline/builder_join.rs JoinBuilder<P,T> for RoundJoinBuilder<T> add_join
//@ nopub
//@ sub <<<dot_product.to_f64().clamp($A, $B).acos()>>> <<<within(dot_product.to_f64(), $A, $B).acos()>>>
//@ sub <<<n as usize>>> <<<whole(n)>>>
//@ sub <<<Rotator::<T>::with_angle($A)>>> <<<rotator_of::<T>($A)>>>
//@ entry
        broadcast use {total_floats, lemma_flow_push, lemma_push_ok};
        let ghost e0 = segments@;
//@ loop 0
            invariant
                edges_ok(e0), led(e0, segments@, to_int(*adapter, start), a),
//@ loopbody 0
            broadcast use {total_floats, lemma_flow_push, lemma_push_ok};
//@ endfn
}
//@ item mesh/outline/builder.rs struct Builder
pub trait OutlineBuild<P: FloatPointCompatible<T>, T: FloatNumber> {
    fn build(&self, path: &[P], adapter: &FloatPointAdapter<P, T>, segments: &mut Vec<Edge>)
        requires edges_ok(old(segments)@)
        ensures banded(*adapter, path@, old(segments)@, final(segments)@);
}
impl<J: JoinBuilder<P, T>, P: FloatPointCompatible<T>, T: FloatNumber> OutlineBuild<P, T> for Builder<J, P, T> {
//@ fn mesh/outline/builder.rs OutlineBuild<P, T> for Builder<J, P, T> build
//@ nopub
//@ sub <<<start.clone()>>> <<<same_section(&start)>>>
//@ entry
        let ghost e0 = segments@;
//@ loop 0
            invariant
                !is_dot(*adapter, path@), edges_ok(e0), i == usize::MAX || i < path.len(),
                led(e0, segments@, to_int(*adapter, start.a_top), to_int(*adapter, s0.b_top)),
            decreases usize::MAX - i,
//@ endfn
}
impl<J: JoinBuilder<P, T>, P: FloatPointCompatible<T>, T: FloatNumber> Builder<J, P, T> {
//@ fn mesh/outline/builder.rs Builder<J,P,T> next_unique_point
//@ index_loops
//@ spec
        requires start < path.len(), index <= path.len()
        ensures
            r == usize::MAX ==> forall|j: int| index <= j < path.len() ==> to_int(*adapter, #[trigger] path[j]) == to_int(*adapter, path[start as int]),
            r != usize::MAX ==> index <= r < path.len() && to_int(*adapter, path[r as int]) != to_int(*adapter, path[start as int])
                && forall|j: int| index <= j < r ==> to_int(*adapter, #[trigger] path[j]) == to_int(*adapter, path[start as int]),
//@ loop 0
            invariant
                a == to_int(*adapter, path[start as int]),
                forall|j: int| index <= j < it0 ==> to_int(*adapter, #[trigger] path[j]) == a,
//@ endfn
}
}
fn main() {}
