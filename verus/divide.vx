// ---- core/divide.rs: a contour that touches itself is divided where it does ----
#![feature(allocator_api)]
//@ import base.vx
//@ include path.vx
use std::collections::HashMap;
verus! {
//@ item i_shape:int/shape.rs type IntContour

// the map gives every point of the path its place; the points of [pos, to) are taken out
pub open spec fn placed(path: Seq<IntPoint>, to: int, pos: int, m: Map<IntPoint, usize>) -> bool {
    (forall|i: int| #![trigger path[i]] 0 <= i < path.len() && !(pos <= i < to) ==> m.contains_key(path[i]) && m[path[i]] == i)
    && (forall|p: IntPoint| #[trigger] m.contains_key(p) ==> m[p] < path.len() && path[m[p] as int] == p && !(pos <= m[p] < to))
}
pub open spec fn state(src: Seq<IntPoint>, n: int, path: Seq<IntPoint>, m: Map<IntPoint, usize>, out: Seq<Seq<IntPoint>>) -> bool {
    placed(path, 0, 0, m)
    && (n == 0 ==> path.len() == 0) && (n > 0 ==> path.len() > 0 && path[0] == src[0] && path.last() == src[n - 1])
    && path.len() <= n <= src.len()
    && (out.len() == 0 ==> path == src.take(n))
    && (out.len() > 0 ==> !src.no_duplicates())
    && (forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i]).no_duplicates() && out[i].len() > 0)
    && (forall|w: spec_fn(IntPoint, IntPoint) -> int| #[trigger] along(w, path) + total(w, out) == along(w, src.take(n)))
}
pub proof fn lemma_no_dup(path: Seq<IntPoint>, m: Map<IntPoint, usize>)
    requires placed(path, 0, 0, m)
    ensures path.no_duplicates()
{
    assert forall|i: int, j: int| 0 <= i < j < path.len() implies path[i] != path[j] by { assert(m[path[i]] == i && m[path[j]] == j); }
}
// one more point
pub proof fn lemma_step(src: Seq<IntPoint>, n: int, path0: Seq<IntPoint>, m0: Map<IntPoint, usize>, out0: Seq<Seq<IntPoint>>,
    path: Seq<IntPoint>, m: Map<IntPoint, usize>, m1: Map<IntPoint, usize>, out: Seq<Seq<IntPoint>>)
    requires
        0 <= n < src.len(), state(src, n, path0, m0, out0),
        ({
            let p = src[n];
            let pos = m0[p] as int;
            let cut = if m0.contains_key(p) { path0.take(pos) } else { path0 };
            path == cut.push(p) && m == m1.insert(p, cut.len() as usize) && cut.len() == cut.len() as usize
            && out == (if m0.contains_key(p) { out0.push(path0.skip(pos)) } else { out0 })
            && (if m0.contains_key(p) { placed(path0, path0.len() as int, pos, m1) } else { m1 == m0 })
        }),
    ensures state(src, n + 1, path, m, out)
{
    let p = src[n];
    let pos = m0[p] as int;
    assert(src.take(n + 1) =~= src.take(n).push(p));
    lemma_no_dup(path0, m0);
    if m0.contains_key(p) {
        assert(path0[pos] == p);
        assert(path0.skip(pos).no_duplicates());
        assert(!src.no_duplicates()) by {
            if out0.len() == 0 { assert(path0[pos] == src[pos] && pos < n); }
        }
    }
    assert forall|i: int| 0 <= i < path.len() implies m.contains_key(#[trigger] path[i]) && m[path[i]] == i by {
        if i < path.len() - 1 { assert(path[i] == path0[i]); assert(m1.contains_key(path0[i])); if m0.contains_key(p) { assert(path0[i] != path0[pos]); } }
    }
    assert forall|q: IntPoint| #[trigger] m.contains_key(q) implies m[q] < path.len() && path[m[q] as int] == q by {
        if q != p { assert(m1.contains_key(q)); }
    }
    assert forall|w: spec_fn(IntPoint, IntPoint) -> int| #[trigger] along(w, path) + total(w, out) == along(w, src.take(n + 1)) by {
        assert(along(w, path0) + total(w, out0) == along(w, src.take(n)));
        lemma_push(w, src.take(n), p);
        if m0.contains_key(p) {
            let rest = path0.skip(pos);
            lemma_push(w, path0.take(pos), p);
            lemma_total_push(w, out0, rest);
            assert(rest[0] == p && rest.last() == path0.last());
            if pos > 0 {
                lemma_split(w, path0, pos);
                assert(path0.take(pos).last() == path0[pos - 1]);
            } else {
                assert(rest =~= path0);
            }
        } else {
            lemma_push(w, path0, p);
        }
    }
}
pub trait ContourDecomposition {
    fn decompose_contours(&self) -> Option<Vec<IntContour>>;
}
impl ContourDecomposition for IntContour {
//@ fn core/divide.rs ContourDecomposition for IntContour decompose_contours
//@ nopub
//@ index_loops
//@ spec
        ensures match r {
            None => self@.len() < 3 || self@.no_duplicates(),
            Some(l) => self@.len() >= 3 && !self@.no_duplicates()
                && (forall|i: int| 0 <= i < l@.len() ==> (#[trigger] l@[i])@.no_duplicates() && l@[i]@.len() > 0)
                // the same edges, with the same directions
                && (forall|w: spec_fn(IntPoint, IntPoint) -> int| #[trigger] total(w, views(l@)) == closed(w, self@)),
        }
//@ entry
        broadcast use group_hash_axioms;
        proof { axiom_point_key(); }
        let ghost src = self@;
//@ before_loop 0
        proof {
            assert(views(contours@) =~= Seq::empty());
            assert(path@ =~= src.take(0));
        }
//@ loop 0
            invariant
                src == self@, obeys_key_model::<IntPoint>(),
                state(src, it0 as int, path@, map@, views(contours@)),
//@ loopbody 0
            let ghost (path0, map0, out0) = (path@, map@, views(contours@));
            let ghost mut map1 = map@;
//@ loop 1
                    invariant
                        obeys_key_model::<IntPoint>(), 0 <= pos < path0.len(), contour@ == path0.skip(pos as int), placed(path0, pos + it1, pos as int, map@),
//@ after_loop 1
                proof { map1 = map@; }
//@ loopend 0
            proof {
                if map0.contains_key(point) { assert(views(contours@) =~= out0.push(path0.skip(map0[point] as int))); } else { assert(views(contours@) =~= out0); }
                lemma_step(src, it0 as int, path0, map0, out0, path@, map@, map1, views(contours@));
            }
//@ after_loop 0
        proof {
            assert(src.take(src.len() as int) =~= src);
            lemma_no_dup(path@, map@);
        }
        let ghost (out1, path1) = (views(contours@), path@);
//@ exit
        proof {
            assert(views(contours@) =~= out1.push(path1));
            assert forall|i: int| 0 <= i < contours@.len() implies (#[trigger] contours@[i])@.no_duplicates() && contours@[i]@.len() > 0 by {
                assert(views(contours@)[i] == contours@[i]@);
                if i < out1.len() { assert(out1[i] == contours@[i]@); }
            }
            assert forall|w: spec_fn(IntPoint, IntPoint) -> int| #[trigger] total(w, views(contours@)) == closed(w, self@) by {
                assert(along(w, path1) + total(w, out1) == along(w, src.take(src.len() as int)));
                lemma_total_push(w, out1, path1);
            }
        }
//@ endfn
}
}
fn main() {}
