// ---- closed paths: sums over their edges ----
use vstd::std_specs::hash::*;
verus! {
global size_of usize == 8;
//@ item i_shape:int/path.rs type IntPath
#[verifier::external]
impl std::hash::Hash for IntPoint { fn hash<H: std::hash::Hasher>(&self, state: &mut H) { self.x.hash(state); self.y.hash(state); } }
// the point's derived Hash and Eq agree
#[verifier::external_body]
pub proof fn axiom_point_key()
    ensures obeys_key_model::<IntPoint>()
{}

pub open spec fn anti(w: spec_fn(IntPoint, IntPoint) -> int) -> bool { forall|a: IntPoint, b: IntPoint| #[trigger] w(a, b) == -w(b, a) }
// the sum along the points, without the closing edge
pub open spec fn along(w: spec_fn(IntPoint, IntPoint) -> int, s: Seq<IntPoint>) -> int
    decreases s.len()
{
    if s.len() < 2 { 0 } else { along(w, s.drop_last()) + w(s[s.len() - 2], s[s.len() - 1]) }
}
pub open spec fn closed(w: spec_fn(IntPoint, IntPoint) -> int, s: Seq<IntPoint>) -> int {
    if s.len() == 0 { 0 } else { along(w, s) + w(s.last(), s[0]) }
}
pub open spec fn total(w: spec_fn(IntPoint, IntPoint) -> int, l: Seq<Seq<IntPoint>>) -> int
    decreases l.len()
{
    if l.len() == 0 { 0 } else { total(w, l.drop_last()) + closed(w, l.last()) }
}
pub open spec fn views(r: Seq<IntPath>) -> Seq<Seq<IntPoint>> { Seq::new(r.len(), |i: int| r[i]@) }
pub proof fn lemma_split(w: spec_fn(IntPoint, IntPoint) -> int, s: Seq<IntPoint>, k: int)
    requires 1 <= k < s.len()
    ensures along(w, s) == along(w, s.take(k)) + w(s[k - 1], s[k]) + along(w, s.skip(k))
    decreases s.len()
{
    if k == s.len() - 1 {
        assert(s.drop_last() =~= s.take(k));
    } else {
        lemma_split(w, s.drop_last(), k);
        assert(s.drop_last().take(k) =~= s.take(k));
        assert(s.skip(k).drop_last() =~= s.drop_last().skip(k));
    }
}
pub proof fn lemma_push(w: spec_fn(IntPoint, IntPoint) -> int, s: Seq<IntPoint>, p: IntPoint)
    ensures along(w, s.push(p)) == (if s.len() == 0 { 0 } else { along(w, s) + w(s.last(), p) })
{
    assert(s.push(p).drop_last() =~= s);
}
pub proof fn lemma_total_push(w: spec_fn(IntPoint, IntPoint) -> int, l: Seq<Seq<IntPoint>>, p: Seq<IntPoint>)
    ensures total(w, l.push(p)) == total(w, l) + closed(w, p)
{
    assert(l.push(p).drop_last() =~= l);
}
}
