// ---- what leaves each point minus what enters it: the same before and after a pass ----
//@ import pieces.vx
verus! {
// a weight of counts that adds up where coincident edges combine, and turns its sign with the direction
pub open spec fn linear<C: WindingCount>(w: spec_fn(C) -> int) -> bool {
    &&& forall|a: C, b: C| C::wf(a) && C::wf(b) && C::mag(a) + C::mag(b) <= i32::MAX ==> #[trigger] w(C::comb(a, b)) == w(a) + w(b)
    &&& forall|a: C| C::wf(a) && C::mag(a) <= i32::MAX ==> #[trigger] w(C::inv(a)) == -w(a)
    &&& forall|a: C| C::none(a) ==> #[trigger] w(a) == 0
}
// (both components of the counts are such weights)
pub proof fn lemma_linear_counts()
    ensures
        linear(|c: ShapeCountBoolean| c.subj as int), linear(|c: ShapeCountBoolean| c.clip as int), linear(|c: ShapeCountString| c.subj as int)
{}
// what the edges carry from their starts to their ends; with f = 1 at one point and 0 elsewhere it is what enters this point minus what leaves it
pub open spec fn carries<C: WindingCount>(x: Segment<C>, w: spec_fn(C) -> int, f: spec_fn(IntPoint) -> int) -> int {
    w(x.count) * (f(x.x_segment.b) - f(x.x_segment.a))
}
pub open spec fn flow<C: WindingCount>(s: Seq<Segment<C>>, w: spec_fn(C) -> int, f: spec_fn(IntPoint) -> int) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { flow(s.drop_last(), w, f) + carries(s.last(), w, f) }
}
pub proof fn lemma_flow_push<C: WindingCount>(s: Seq<Segment<C>>, x: Segment<C>, w: spec_fn(C) -> int, f: spec_fn(IntPoint) -> int)
    ensures flow(s.push(x), w, f) == flow(s, w, f) + carries(x, w, f)
{
    assert(s.push(x).drop_last() =~= s);
}
pub proof fn lemma_flow_add<C: WindingCount>(a: Seq<Segment<C>>, b: Seq<Segment<C>>, w: spec_fn(C) -> int, f: spec_fn(IntPoint) -> int)
    ensures flow(a + b, w, f) == flow(a, w, f) + flow(b, w, f)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_flow_add(a, b.drop_last(), w, f); }
}
pub proof fn lemma_flow_bag<C: WindingCount>(o: Seq<Segment<C>>, n: Seq<Segment<C>>, w: spec_fn(C) -> int, f: spec_fn(IntPoint) -> int)
    requires same_segs(o, n)
    ensures flow(o, w, f) == flow(n, w, f)
    decreases n.len()
{
    if n.len() > 0 {
        let x = n.last();
        let j = lemma_bag_last(o, n);
        assert(n =~= n.drop_last().push(x));
        lemma_bag_push(n.drop_last(), x);
        o.to_multiset_ensures();
        assert(o.remove(j).to_multiset() =~= n.drop_last().to_multiset());
        lemma_flow_bag(o.remove(j), n.drop_last(), w, f);
        assert(o =~= o.take(j).push(x) + o.skip(j + 1));
        assert(o.remove(j) =~= o.take(j) + o.skip(j + 1));
        lemma_flow_add(o.take(j).push(x), o.skip(j + 1), w, f);
        lemma_flow_add(o.take(j), o.skip(j + 1), w, f);
        lemma_flow_push(o.take(j), x, w, f);
    }
}
pub proof fn lemma_flow_stored<C: WindingCount>(a: IntPoint, b: IntPoint, c: C, w: spec_fn(C) -> int, f: spec_fn(IntPoint) -> int)
    requires linear(w), C::wf(c), C::mag(c) <= i32::MAX
    ensures carries(stored(a, b, c), w, f) == w(c) * (f(b) - f(a))
{
    let (p, q, v) = (f(a), f(b), w(c));
    assert(w(C::inv(c)) == -v);
    assert((-v) * (p - q) == v * (q - p)) by (nonlinear_arith);
}
pub proof fn lemma_flow_chain<C: WindingCount>(a: IntPoint, pts: Seq<IntPoint>, c: C, w: spec_fn(C) -> int, f: spec_fn(IntPoint) -> int)
    requires linear(w), C::wf(c), C::mag(c) <= i32::MAX
    ensures flow(chain(a, pts, c), w, f) == w(c) * (f(last_of(a, pts)) - f(a))
    decreases pts.len()
{
    if pts.len() > 0 {
        let m = last_of(a, pts.drop_last());
        lemma_flow_chain(a, pts.drop_last(), c, w, f);
        lemma_flow_push(chain(a, pts.drop_last(), c), stored(m, pts.last(), c), w, f);
        lemma_flow_stored(m, pts.last(), c, w, f);
        let (v, x, y, z) = (w(c), f(a), f(m), f(pts.last()));
        assert(v * (y - x) + v * (z - y) == v * (z - x)) by (nonlinear_arith);
    } else { assert(w(c) * 0 == 0); }
}
pub proof fn lemma_flow_cut<C: WindingCount>(s: Segment<C>, pts: Seq<IntPoint>, w: spec_fn(C) -> int, f: spec_fn(IntPoint) -> int)
    requires linear(w), C::wf(s.count), C::mag(s.count) <= i32::MAX
    ensures flow(cut(s, pts), w, f) == carries(s, w, f)
{
    if pts.len() == 0 { lemma_flow_push(Seq::empty(), s, w, f); assert(seq![s] =~= Seq::empty().push(s)); }
    else { lemma_flow_chain(s.x_segment.a, pts.push(s.x_segment.b), s.count, w, f); }
}
pub proof fn lemma_flow_pieces<C: WindingCount>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, n: int, w: spec_fn(C) -> int, f: spec_fn(IntPoint) -> int)
    requires linear(w), counts_ok(segs), 0 <= n <= segs.len()
    ensures flow(pieces(segs, marks, n), w, f) == flow(segs.take(n), w, f)
    decreases n
{
    if n > 0 {
        lemma_flow_pieces(segs, marks, n - 1, w, f);
        lemma_flow_cut(segs[n - 1], pts_of(marks, n - 1), w, f);
        lemma_flow_add(pieces(segs, marks, n - 1), cut(segs[n - 1], pts_of(marks, n - 1)), w, f);
        assert(segs.take(n) =~= segs.take(n - 1).push(segs[n - 1]));
        lemma_flow_push(segs.take(n - 1), segs[n - 1], w, f);
    }
}
pub proof fn lemma_flow_runs<C: WindingCount>(s: Seq<Segment<C>>, w: spec_fn(C) -> int, f: spec_fn(IntPoint) -> int)
    requires linear(w), smag(s) <= i32::MAX, all_wf(s)
    ensures flow(runs(s), w, f) == flow(s, w, f)
    decreases s.len()
{
    if s.len() > 0 {
        let (t, x) = (s.drop_last(), s.last());
        assert(all_wf(t)) by { assert forall|i: int| 0 <= i < t.len() implies C::wf((#[trigger] t[i]).count) by { assert(C::wf(s[i].count)); } }
        assert(C::wf(s[s.len() - 1].count));
        lemma_flow_runs(t, w, f);
        lemma_runs_bound(t);
        let r = runs(t);
        if r.len() > 0 && r.last().x_segment == x.x_segment {
            let y = r.last();
            assert(C::wf(r[r.len() - 1].count));
            assert(smag(r) == smag(r.drop_last()) + C::mag(y.count));
            let m = Segment { x_segment: x.x_segment, count: C::comb(y.count, x.count) };
            lemma_flow_push(r.drop_last(), m, w, f);
            let (v, u, d) = (w(y.count), w(x.count), f(x.x_segment.b) - f(x.x_segment.a));
            assert(w(m.count) == v + u);
            assert((v + u) * d == v * d + u * d) by (nonlinear_arith);
        } else { lemma_flow_push(r, x, w, f); }
    }
}
pub proof fn lemma_flow_live<C: WindingCount>(s: Seq<Segment<C>>, w: spec_fn(C) -> int, f: spec_fn(IntPoint) -> int)
    requires linear(w)
    ensures flow(live(s), w, f) == flow(s, w, f)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_flow_live(s.drop_last(), w, f);
        let (v, d) = (w(s.last().count), f(s.last().x_segment.b) - f(s.last().x_segment.a));
        if C::none(s.last().count) { assert(v * d == 0) by (nonlinear_arith) requires v == 0; }
        else { lemma_flow_push(live(s.drop_last()), s.last(), w, f); }
    }
}
// one pass changes nothing at any point
pub proof fn lemma_flow_divided<C: WindingCount>(r: Seq<Segment<C>>, segs: Seq<Segment<C>>, marks: Seq<LineMark>, w: spec_fn(C) -> int, f: spec_fn(IntPoint) -> int)
    requires divided(r, segs, marks), linear(w), counts_ok(segs), marks_in(marks, segs), smag(segs) + mark_mag(segs, marks) <= i32::MAX
    ensures flow(r, w, f) == flow(segs, w, f)
{
    let s = choose|s: Seq<Segment<C>>| #[trigger] sorted(s) && same_segs(pieces(segs, marks, segs.len() as int), s) && r == live(runs(s));
    lemma_mergeable(segs, marks, s);
    lemma_flow_live(runs(s), w, f);
    lemma_flow_runs(s, w, f);
    lemma_flow_bag(pieces(segs, marks, segs.len() as int), s, w, f);
    lemma_flow_pieces(segs, marks, segs.len() as int, w, f);
    assert(segs.take(segs.len() as int) =~= segs);
}
}
fn main() {}
