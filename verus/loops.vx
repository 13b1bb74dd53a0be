// ---- string/split.rs: a traced path is split into simple loops ----
#![feature(allocator_api)]
//@ import base.vx
//@ include path.vx
//@ include area.vx
use std::collections::HashMap;
verus! {
pub open spec fn simple(s: Seq<IntPoint>) -> bool { s.len() >= 3 && s.no_duplicates() }
pub open spec fn big(s: Seq<IntPoint>, min_area: usize) -> bool { min_area == 0 || iabs(wrap(area(s))) / 2 >= min_area }
// the loops that are large enough, in order
pub open spec fn kept(l: Seq<Seq<IntPoint>>, min_area: usize) -> Seq<Seq<IntPoint>>
    decreases l.len()
{
    if l.len() == 0 { Seq::empty() } else if big(l.last(), min_area) { kept(l.drop_last(), min_area).push(l.last()) } else { kept(l.drop_last(), min_area) }
}
// the loops the path falls into: simple ones, with the same edges up to pairs there and back
pub open spec fn falls_into(s: Seq<IntPoint>, l: Seq<Seq<IntPoint>>) -> bool {
    (forall|i: int| 0 <= i < l.len() ==> simple(#[trigger] l[i]))
    && (forall|w: spec_fn(IntPoint, IntPoint) -> int| #[trigger] anti(w) ==> total(w, l) == closed(w, s))
}

// the map gives every point of the path its place, counted from one; the points [pos, to) are taken out
pub open spec fn indexed(path: Seq<IntPoint>, to: int, pos: int, m: Map<IntPoint, usize>) -> bool {
    (forall|i: int| #![trigger path[i]] 0 <= i < path.len() && !(pos <= i < to) ==> m.contains_key(path[i]) && m[path[i]] == i + 1)
    && (forall|p: IntPoint| #[trigger] m.contains_key(p) ==> 1 <= m[p] <= path.len() && path[m[p] - 1] == p && !(pos <= m[p] - 1 < to))
}
pub open spec fn state(src: Seq<IntPoint>, n: int, path: Seq<IntPoint>, m: Map<IntPoint, usize>, emitted: Seq<Seq<IntPoint>>) -> bool {
    indexed(path, 0, 0, m)
    && (n == 0 ==> path.len() == 0) && (n > 0 ==> path.len() > 0 && path[0] == src[0] && path.last() == src[n - 1])
    && path.len() <= n <= src.len()
    && (forall|i: int| 0 <= i < emitted.len() ==> simple(#[trigger] emitted[i]))
    && (forall|w: spec_fn(IntPoint, IntPoint) -> int| #[trigger] anti(w) ==> total(w, emitted) + along(w, path) == along(w, src.take(n)))
}
// one more point
pub proof fn lemma_step(src: Seq<IntPoint>, n: int, path0: Seq<IntPoint>, m0: Map<IntPoint, usize>, emitted0: Seq<Seq<IntPoint>>,
    path: Seq<IntPoint>, m: Map<IntPoint, usize>, emitted: Seq<Seq<IntPoint>>)
    requires
        0 <= n < src.len(), state(src, n, path0, m0, emitted0),
        ({
            let p = src[n];
            if m0.contains_key(p) {
                let pos = m0[p] as int;
                path == path0.take(pos) && indexed(path0, path0.len() as int, pos, m)
                && emitted == (if path0.len() - pos < 2 { emitted0 } else { emitted0.push(path0.skip(pos).push(p)) })
            } else {
                path == path0.push(p) && m == m0.insert(p, path.len() as usize) && path.len() == path.len() as usize && emitted == emitted0
            }
        }),
    ensures state(src, n + 1, path, m, emitted)
{
    let p = src[n];
    let t = path0.skip(m0[p] as int).push(p);
    assert(src.take(n + 1) =~= src.take(n).push(p));
    if m0.contains_key(p) {
        let pos = m0[p] as int;
        assert(path0[pos - 1] == p);
        if path0.len() - pos >= 2 {
            assert(simple(t)) by {
                assert forall|i: int, j: int| 0 <= i < j < t.len() implies t[i] != t[j] by {
                    assert(t[i] == path0[i + pos] && m0[t[i]] == i + pos + 1);
                    if j < t.len() - 1 { assert(t[j] == path0[j + pos] && m0[t[j]] == j + pos + 1); }
                }
            }
        }
    } else {
        assert forall|i: int| 0 <= i < path.len() implies m.contains_key(#[trigger] path[i]) && m[path[i]] == i + 1 by {
            if i < path0.len() { assert(path[i] == path0[i]); assert(m0.contains_key(path0[i])); }
        }
        assert forall|q: IntPoint| #[trigger] m.contains_key(q) implies 1 <= m[q] <= path.len() && path[m[q] - 1] == q by {
            if q != p { assert(m0.contains_key(q)); }
        }
    }
    assert forall|w: spec_fn(IntPoint, IntPoint) -> int| #[trigger] anti(w) implies total(w, emitted) + along(w, path) == along(w, src.take(n + 1)) by {
        lemma_push(w, src.take(n), p);
        lemma_push(w, path0, p);
        assert(w(p, p) == -w(p, p));
        if m0.contains_key(p) {
            let pos = m0[p] as int;
            let rest = path0.skip(pos);
            assert(w(p, path0[pos]) == -w(path0[pos], p));
            if pos < path0.len() { lemma_split(w, path0, pos); } else { assert(path0.take(pos) =~= path0); }
            lemma_push(w, rest, p);
            lemma_total_push(w, emitted0, t);
        }
    }
}
pub proof fn lemma_end(src: Seq<IntPoint>, path: Seq<IntPoint>, m: Map<IntPoint, usize>, emitted: Seq<Seq<IntPoint>>)
    requires state(src, src.len() as int, path, m, emitted)
    ensures falls_into(src, if path.len() > 2 { emitted.push(path) } else { emitted })
{
    assert(src.take(src.len() as int) =~= src);
    assert(path.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < j < path.len() implies path[i] != path[j] by { assert(m[path[i]] == i + 1 && m[path[j]] == j + 1); }
    }
    assert forall|w: spec_fn(IntPoint, IntPoint) -> int| #[trigger] anti(w) implies
        total(w, if path.len() > 2 { emitted.push(path) } else { emitted }) == closed(w, src) by {
        lemma_total_push(w, emitted, path);
        if path.len() == 1 { assert(w(path[0], path[0]) == -w(path[0], path[0])); }
        if path.len() == 2 {
            assert(along(w, path.drop_last()) == 0);
            assert(along(w, path) == w(path[0], path[1]));
            assert(w(path[0], path[1]) == -w(path[1], path[0]));
        }
    }
}

pub trait ValidateArea {
    spec fn loop_pts(&self) -> Seq<IntPoint>;
    fn validate_area(&self, min_area: usize) -> bool
        requires self.loop_pts().len() > 0;
}
impl ValidateArea for IntPath {
    open spec fn loop_pts(&self) -> Seq<IntPoint> { self@ }
//@ fn string/split.rs ValidateArea for IntPath validate_area
//@ nopub
//@ spec
        ensures r == big(self@, min_area)
//@ after abs_area
        proof {
            let x = wrap(area(self@)) as i64;
            let u = vstd::math::abs(x as int) as usize;
            assert(u >> 1 == u / 2) by (bit_vector);
        }
//@ endfn
}
pub trait Split {
    fn split_loops(self, min_area: usize) -> Vec<Self> where Self: Sized;
}
impl Split for IntPath {
//@ fn string/split.rs Split for IntPath split_loops
//@ sub <<<?for point in self {>>> <<<for it0 in 0..self.len() { let point = self[it0];>>>
//@ index_loops
//@ nopub
//@ spec
        ensures exists|l: Seq<Seq<IntPoint>>| #[trigger] falls_into(self@, l) && views(r@) == kept(l, min_area)
//@ entry
        broadcast use group_hash_axioms;
        proof { axiom_point_key(); }
        let ghost src = self@;
        let ghost mut emitted: Seq<Seq<IntPoint>> = Seq::empty();
//@ before_loop 0
        proof {
            assert(views(result@) =~= kept(emitted, min_area));
            assert forall|w: spec_fn(IntPoint, IntPoint) -> int| #[trigger] anti(w) implies total(w, emitted) + along(w, path@) == along(w, src.take(0)) by {}
            assert(indexed(path@, 0, 0, map@));
        }
//@ loop 0
            invariant
                src == self@, obeys_key_model::<IntPoint>(),
                state(src, it0 as int, path@, map@, emitted),
                views(result@) == kept(emitted, min_area),
//@ loopbody 0
            let ghost (path0, map0, emitted0) = (path@, map@, emitted);
//@ loopend 0
            proof {
                lemma_step(src, it0 as int, path0, map0, emitted0, path@, map@, emitted);
            }
//@ after_loop 0
        proof {
            lemma_end(src, path@, map@, emitted);
        }
        let ghost e0 = emitted;
        proof {
            emitted = if path@.len() > 2 { emitted.push(path@) } else { emitted };
            assert(path@.len() > 2 ==> emitted.drop_last() =~= e0);
        }
//@ after tail
                        proof { let t = tail@.push(point); emitted = emitted.push(t); assert(emitted.drop_last() =~= emitted0); }
//@ exit
        proof { assert(views(result@) =~= kept(emitted, min_area)); }
//@ loop 1
                invariant
                    obeys_key_model::<IntPoint>(), 1 <= pos <= path@.len(), path@[pos - 1] == point, indexed(path@, it1 as int, pos as int, map@),
//@ endfn
}
}
fn main() {}
