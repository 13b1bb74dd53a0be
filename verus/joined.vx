// ---- holes added to shapes ----
verus! {
//@ item i_shape:int/shape.rs type IntShape
pub open spec fn outers<E>(s: Seq<Vec<Vec<E>>>) -> Seq<Seq<E>> { Seq::new(s.len(), |i: int| s[i]@[0]@) }
pub open spec fn points<E>(s: Seq<Vec<E>>) -> Seq<Seq<E>> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn held(owner: Seq<int>, place: Seq<int>, n: int, s: int, j: int) -> bool { exists|h: int| 0 <= h < n && #[trigger] owner[h] == s && place[h] == j }
// hole h is contour place[h] of shape owner[h], and a shape has no other contours behind its first
pub open spec fn placed<E>(holes: Seq<Seq<E>>, out: Seq<Vec<Vec<E>>>, owner: Seq<int>, place: Seq<int>) -> bool {
    &&& owner.len() == holes.len() && place.len() == holes.len()
    &&& forall|h: int| #![trigger owner[h]] 0 <= h < holes.len() ==> 0 <= owner[h] < out.len() && 1 <= place[h] < out[owner[h]]@.len() && out[owner[h]]@[place[h]]@ == holes[h]
    &&& forall|h: int, k: int| #![trigger owner[h], owner[k]] 0 <= h < k < holes.len() ==> owner[h] != owner[k] || place[h] != place[k]
    &&& forall|s: int, j: int| 0 <= s < out.len() && 1 <= j < out[s]@.len() ==> #[trigger] held(owner, place, holes.len() as int, s, j)
}
pub open spec fn joined<E>(shapes: Seq<Seq<E>>, holes: Seq<Seq<E>>, out: Seq<Vec<Vec<E>>>) -> bool {
    &&& out.len() == shapes.len() && outers(out) =~= shapes
    &&& forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i])@.len() >= 1
    &&& shapes.len() > 0 ==> exists|owner: Seq<int>, place: Seq<int>| #[trigger] placed(holes, out, owner, place)
}
}
