//@ include base.vx
//@ include segment.vx
//@ include count.vx
verus! {
impl PartialEqSpecImpl for XSegment {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}

// coincident neighbours combined, one entry per run
pub open spec fn runs<C: WindingCount>(s: Seq<Segment<C>>) -> Seq<Segment<C>>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { run_step(runs(s.drop_last()), s.last()) }
}
pub open spec fn run_step<C: WindingCount>(r: Seq<Segment<C>>, x: Segment<C>) -> Seq<Segment<C>> {
    if r.len() > 0 && r.last().x_segment == x.x_segment {
        r.drop_last().push(Segment { x_segment: x.x_segment, count: C::comb(r.last().count, x.count) })
    } else { r.push(x) }
}
// without the edges that cancelled
pub open spec fn live<C: WindingCount>(s: Seq<Segment<C>>) -> Seq<Segment<C>>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() }
    else if C::none(s.last().count) { live(s.drop_last()) }
    else { live(s.drop_last()).push(s.last()) }
}
pub open spec fn smag<C: WindingCount>(s: Seq<Segment<C>>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { smag(s.drop_last()) + C::mag(s.last().count) }
}
pub open spec fn all_live<C: WindingCount>(s: Seq<Segment<C>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> !C::none((#[trigger] s[i]).count)
}
pub open spec fn all_wf<C: WindingCount>(s: Seq<Segment<C>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> C::wf((#[trigger] s[i]).count)
}
pub open spec fn no_repeat<C: WindingCount>(s: Seq<Segment<C>>) -> bool {
    forall|i: int| 0 < i < s.len() ==> s[i - 1].x_segment != (#[trigger] s[i]).x_segment
}
pub proof fn lemma_runs_plain<C: WindingCount>(s: Seq<Segment<C>>)
    requires no_repeat(s),
    ensures runs(s) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 < i < s.drop_last().len() implies s.drop_last()[i - 1].x_segment != (#[trigger] s.drop_last()[i]).x_segment by {
            assert(s[i - 1].x_segment != s[i].x_segment);
        }
        lemma_runs_plain(s.drop_last());
        if s.len() > 1 { assert(s[s.len() - 2].x_segment != s[s.len() - 1].x_segment); }
        assert(s.drop_last().push(s.last()) =~= s);
    } else { assert(runs(s) =~= s); }
}
pub proof fn lemma_live_plain<C: WindingCount>(s: Seq<Segment<C>>)
    requires all_live(s),
    ensures live(s) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies !C::none((#[trigger] s.drop_last()[i]).count) by { assert(!C::none(s[i].count)); }
        lemma_live_plain(s.drop_last());
        assert(!C::none(s[s.len() - 1].count));
        assert(s.drop_last().push(s.last()) =~= s);
    } else { assert(live(s) =~= s); }
}
pub proof fn lemma_live_push<C: WindingCount>(s: Seq<Segment<C>>, x: Segment<C>)
    ensures live(s.push(x)) == (if C::none(x.count) { live(s) } else { live(s).push(x) }), live(s).len() <= s.len(),
    decreases s.len(),
{
    assert(s.push(x).drop_last() =~= s);
    if s.len() > 0 { lemma_live_push(s.drop_last(), s.last()); assert(s.drop_last().push(s.last()) =~= s); }
}
pub proof fn lemma_runs_push<C: WindingCount>(s: Seq<Segment<C>>, x: Segment<C>)
    ensures runs(s.push(x)) == run_step(runs(s), x), smag(s.push(x)) == smag(s) + C::mag(x.count)
{
    assert(s.push(x).drop_last() =~= s);
}
// sizes, and the total of what is not yet read
pub proof fn lemma_runs_bound<C: WindingCount>(s: Seq<Segment<C>>)
    requires smag(s) <= i32::MAX, all_wf(s),
    ensures
        runs(s).len() <= s.len(), s.len() > 0 ==> runs(s).len() > 0 && runs(s).last().x_segment == s.last().x_segment,
        smag(runs(s)) <= smag(s), all_wf(runs(s)),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert(all_wf(t)) by { assert forall|i: int| 0 <= i < t.len() implies C::wf((#[trigger] t[i]).count) by { assert(C::wf(s[i].count)); } }
        assert(C::wf(s[s.len() - 1].count));
        lemma_runs_bound(t);
        let r = runs(t);
        if r.len() > 0 {
            assert(C::wf(r[r.len() - 1].count));
            assert(smag(r) == smag(r.drop_last()) + C::mag(r.last().count));
            C::lemma_comb(r.last().count, s.last().count);
            let m = Segment { x_segment: s.last().x_segment, count: C::comb(r.last().count, s.last().count) };
            lemma_smag_push(r.drop_last(), m);
        }
        lemma_smag_push(r, s.last());
        assert forall|i: int| 0 <= i < runs(s).len() implies C::wf((#[trigger] runs(s)[i]).count) by {
            if i < r.len() { assert(C::wf(r[i].count)); }
        }
    }
}
pub proof fn lemma_smag_push<C: WindingCount>(s: Seq<Segment<C>>, x: Segment<C>)
    ensures smag(s.push(x)) == smag(s) + C::mag(x.count)
{
    assert(s.push(x).drop_last() =~= s);
}
pub proof fn lemma_smag_prefix<C: WindingCount>(s: Seq<Segment<C>>, k: int)
    requires 0 <= k <= s.len(),
    ensures smag(s.take(k)) <= smag(s),
    decreases s.len(),
{
    if k == s.len() { assert(s.take(k) =~= s); }
    else {
        assert(s.drop_last().take(k) =~= s.take(k));
        lemma_smag_prefix(s.drop_last(), k);
    }
}

//@ fn segm/merge.rs - merge
//@ attr #[verifier::spinoff_prover]
//@ sub <<<segments: &mut [Segment<C>]>>> <<<segments: &mut Vec<Segment<C>>>>>
//@ spec
    requires
        1 <= after < old(segments)@.len(),
        no_repeat(old(segments)@.take(after as int)), all_live(old(segments)@.take(after as int)),
        all_wf(old(segments)@), smag(old(segments)@) <= i32::MAX
    ensures
        final(segments)@.len() == old(segments)@.len(), r <= final(segments)@.len(),
        final(segments)@.take(r as int) == live(runs(old(segments)@))
//@ entry
    let ghost s0 = segments@;
    proof {
        let t = s0.take(after as int);
        assert(all_live(t.drop_last())) by { assert forall|k: int| 0 <= k < t.drop_last().len() implies !C::none((#[trigger] t.drop_last()[k]).count) by { assert(!C::none(t[k].count)); } }
        lemma_runs_plain(t);
        lemma_live_plain(t.drop_last());
        assert(t.drop_last() =~= s0.take(after - 1));
    }
//@ loop 0
        invariant
            segments@.len() == s0.len(), 1 <= i <= s0.len(), j < i, all_wf(s0), smag(s0) <= i32::MAX,
            segments@.skip(i as int) == s0.skip(i as int),
            runs(s0.take(i as int)).len() > 0,
            runs(s0.take(i as int)).last() == prev,
            segments@.take(j as int) == live(runs(s0.take(i as int)).drop_last()),
        decreases segments@.len() - i
//@ loopbody 0
        let ghost seg0 = segments@;
        let ghost (j0, prev0) = (j, prev);
        proof {
            let t = s0.take(i as int);
            let x = s0[i as int];
            assert(x == segments@.skip(i as int)[0]);
            assert(s0.take(i + 1) =~= t.push(x));
            lemma_runs_push(t, x);
            lemma_smag_prefix(s0, i + 1);
            assert(all_wf(t));
            lemma_runs_bound(t);
            let r = runs(t);
            assert(smag(r) == smag(r.drop_last()) + C::mag(r.last().count));
            lemma_live_push(r.drop_last(), r.last());
            assert(r.drop_last().push(r.last()) =~= r);
            assert(r.push(x).drop_last() =~= r);
            assert(r.drop_last().push(Segment { x_segment: x.x_segment, count: C::comb(r.last().count, x.count) }).drop_last() =~= r.drop_last());
        }
//@ loopend 0
        proof {
            assert(segments@.skip(i as int) =~= s0.skip(i as int)) by {
                assert forall|k: int| 0 <= k < s0.len() - i implies segments@.skip(i as int)[k] == s0.skip(i as int)[k] by {
                    assert(seg0.skip(i - 1)[k + 1] == s0.skip(i - 1)[k + 1]);
                }
            }
            let rr = runs(s0.take(i as int));
            let r = runs(s0.take(i - 1));
            if j == j0 {
                assert(rr.drop_last() =~= r.drop_last() || rr.drop_last() =~= r);
                assert(live(rr.drop_last()) == live(r.drop_last()));
                assert(segments@.take(j as int) =~= seg0.take(j0 as int));
            } else {
                assert(rr.drop_last() =~= r);
                assert(live(r) == live(r.drop_last()).push(prev0));
                assert(segments@.take(j as int) =~= seg0.take(j0 as int).push(prev0));
            }
        }
//@ after_loop 0
    let ghost seg1 = segments@;
    proof {
        assert(s0.take(i as int) =~= s0);
        let r = runs(s0);
        lemma_live_push(r.drop_last(), r.last());
        assert(r.drop_last().push(r.last()) =~= r);
    }
//@ exit
    proof { assert(segments@.take(j as int) =~= live(runs(s0))); }
//@ endfn


pub open spec fn seg_lt(a: XSegment, b: XSegment) -> bool { pt_lt(a.a, b.a) || (a.a == b.a && pt_lt(a.b, b.b)) }
pub open spec fn sorted<C: WindingCount>(s: Seq<Segment<C>>) -> bool {
    forall|i: int| 0 < i < s.len() ==> s[i - 1].x_segment == (#[trigger] s[i]).x_segment || seg_lt(s[i - 1].x_segment, s[i].x_segment)
}
pub open spec fn strict<C: WindingCount>(s: Seq<Segment<C>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> seg_lt((#[trigger] s[i]).x_segment, (#[trigger] s[j]).x_segment)
}
// all the counts of one edge combined
pub open spec fn total<C: WindingCount>(s: Seq<Segment<C>>, k: XSegment) -> Option<C>
    decreases s.len(),
{
    if s.len() == 0 { None }
    else if s.last().x_segment != k { total(s.drop_last(), k) }
    else { match total(s.drop_last(), k) { None => Some(s.last().count), Some(c) => Some(C::comb(c, s.last().count)) } }
}
pub open spec fn live_opt<C: WindingCount>(o: Option<C>) -> Option<C> {
    match o { Some(c) if !C::none(c) => Some(c), _ => None }
}
pub proof fn lemma_total_absent<C: WindingCount>(s: Seq<Segment<C>>, k: XSegment)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).x_segment != k,
    ensures total(s, k) is None,
    decreases s.len(),
{
    if s.len() > 0 {
        assert(s[s.len() - 1].x_segment != k);
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).x_segment != k by { assert(s[i].x_segment != k); }
        lemma_total_absent(s.drop_last(), k);
    }
}
pub proof fn lemma_total_push<C: WindingCount>(s: Seq<Segment<C>>, x: Segment<C>, k: XSegment)
    ensures total(s.push(x), k) == (if x.x_segment != k { total(s, k) } else { match total(s, k) { None => Some(x.count), Some(c) => Some(C::comb(c, x.count)) } })
{
    assert(s.push(x).drop_last() =~= s);
}
pub proof fn lemma_runs_total<C: WindingCount>(s: Seq<Segment<C>>)
    requires sorted(s),
    ensures
        strict(runs(s)),
        s.len() > 0 ==> runs(s).len() > 0 && runs(s).last().x_segment == s.last().x_segment,
        forall|k: XSegment| #[trigger] total(runs(s), k) == total(s, k),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        let x = s.last();
        assert(sorted(t)) by { assert forall|i: int| 0 < i < t.len() implies t[i - 1].x_segment == (#[trigger] t[i]).x_segment || seg_lt(t[i - 1].x_segment, t[i].x_segment) by { assert(s[i - 1].x_segment == s[i].x_segment || seg_lt(s[i - 1].x_segment, s[i].x_segment)); } }
        lemma_runs_total(t);
        let r = runs(t);
        if t.len() > 0 {
            assert(t.last() == s[s.len() - 2]);
            assert(s[s.len() - 2].x_segment == s[s.len() - 1].x_segment || seg_lt(s[s.len() - 2].x_segment, s[s.len() - 1].x_segment));
            assert(r[r.len() - 1].x_segment == t.last().x_segment);
        }
        assert(strict(runs(s))) by {
            let q = runs(s);
            assert forall|i: int, j: int| 0 <= i < j < q.len() implies seg_lt((#[trigger] q[i]).x_segment, (#[trigger] q[j]).x_segment) by {
                assert(q[i].x_segment == r[i].x_segment);
                if j < r.len() {
                    assert(q[j].x_segment == r[j].x_segment);
                    assert(seg_lt(r[i].x_segment, r[j].x_segment));
                } else if i < r.len() - 1 {
                    assert(seg_lt(r[i].x_segment, r[r.len() - 1].x_segment));
                }
            }
        }
        assert forall|k: XSegment| #[trigger] total(runs(s), k) == total(s, k) by {
            assert(total(r, k) == total(t, k));
            if r.len() > 0 && r.last().x_segment == x.x_segment {
                let m = Segment { x_segment: x.x_segment, count: C::comb(r.last().count, x.count) };
                lemma_total_push(r.drop_last(), m, k);
                if k == x.x_segment {
                    assert forall|i: int| 0 <= i < r.drop_last().len() implies (#[trigger] r.drop_last()[i]).x_segment != k by {
                        assert(seg_lt(r[i].x_segment, r[r.len() - 1].x_segment));
                    }
                    lemma_total_absent(r.drop_last(), k);
                }
            } else {
                lemma_total_push(r, x, k);
            }
        }
    }
}
pub proof fn lemma_live_total<C: WindingCount>(s: Seq<Segment<C>>)
    requires strict(s),
    ensures
        strict(live(s)), all_live(live(s)),
        forall|i: int| 0 <= i < live(s).len() ==> s.contains(#[trigger] live(s)[i]),
        forall|k: XSegment| #[trigger] total(live(s), k) == live_opt(total(s, k)),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        let x = s.last();
        assert(strict(t)) by { assert forall|i: int, j: int| 0 <= i < j < t.len() implies seg_lt((#[trigger] t[i]).x_segment, (#[trigger] t[j]).x_segment) by { assert(seg_lt(s[i].x_segment, s[j].x_segment)); } }
        lemma_live_total(t);
        let l = live(t);
        assert forall|i: int| 0 <= i < l.len() implies seg_lt((#[trigger] l[i]).x_segment, x.x_segment) && s.contains(l[i]) by {
            assert(t.contains(l[i]));
            let k = choose|k: int| 0 <= k < t.len() && t[k] == l[i];
            assert(s[k] == l[i]);
            assert(seg_lt(s[k].x_segment, s[s.len() - 1].x_segment));
        }
        assert(s[s.len() - 1] == x);
        assert forall|k: XSegment| #[trigger] total(live(s), k) == live_opt(total(s, k)) by {
            assert(total(l, k) == live_opt(total(t, k)));
            lemma_total_push(l, x, k);
            if k == x.x_segment {
                assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).x_segment != k by { assert(seg_lt(s[i].x_segment, s[s.len() - 1].x_segment)); }
                lemma_total_absent(t, k);
                assert(total(t, k) is None);
            }
        }
    }
}

pub trait ShapeSegmentsMerge<C: WindingCount> {
    spec fn view_segs(&self) -> Seq<Segment<C>>;
    fn merge_if_needed(&mut self)
        requires sorted(old(self).view_segs()), all_live(old(self).view_segs()), all_wf(old(self).view_segs()), smag(old(self).view_segs()) <= i32::MAX
        ensures
            final(self).view_segs() == live(runs(old(self).view_segs())),
            // every edge once, in order, none empty, and each carries all the counts it had
            strict(final(self).view_segs()), all_live(final(self).view_segs()),
            forall|k: XSegment| #[trigger] total(final(self).view_segs(), k) == live_opt(total(old(self).view_segs(), k));
}
impl<C: WindingCount> ShapeSegmentsMerge<C> for Vec<Segment<C>> {
    open spec fn view_segs(&self) -> Seq<Segment<C>> { self@ }
//@ fn segm/merge.rs ShapeSegmentsMerge for Vec<Segment<C>> merge_if_needed
//@ nopub
//@ entry
        let ghost s0 = self@;
        proof {
            lemma_runs_total(s0);
            lemma_live_total(runs(s0));
            if s0.len() < 2 { lemma_runs_plain(s0); lemma_live_plain(s0); }
        }
//@ loop 0 for it
            invariant
                it.seq().len() == s0.len() - 1, forall|n: int| 0 <= n < it.seq().len() ==> it.seq()[n] == n + 1,
                s0 == old(self)@, self@ == s0, 1 <= i <= s0.len(), s0.len() >= 2, *prev == s0[i - 1].x_segment, all_live(s0), all_wf(s0), smag(s0) <= i32::MAX,
                no_repeat(s0.take(i as int)),
                strict(live(runs(s0))), all_live(live(runs(s0))),
                forall|k: XSegment| #[trigger] total(live(runs(s0)), k) == live_opt(total(s0, k)),
//@ atafter <<<self.truncate(new_len);>>>
                    proof {
                        assert(self@ =~= live(runs(s0)));
                        assert forall|k: XSegment| #[trigger] total(self@, k) == live_opt(total(s0, k)) by { assert(total(live(runs(s0)), k) == live_opt(total(s0, k))); }
                    }
//@ loopbody 0
                proof {
                    assert(all_live(s0.take(i as int)));
                    assert(no_repeat(s0.take(i + 1)) || *prev == s0[i as int].x_segment) by {
                        if *prev != s0[i as int].x_segment {
                            assert forall|j: int| 0 < j < i + 1 implies s0.take(i + 1)[j - 1].x_segment != (#[trigger] s0.take(i + 1)[j]).x_segment by {
                                if j < i { assert(s0.take(i as int)[j - 1].x_segment != s0.take(i as int)[j].x_segment); }
                            }
                        }
                    }
                }
//@ after_loop 0
        proof {
            assert(s0.take(s0.len() as int) =~= s0);
            lemma_runs_plain(s0);
            lemma_live_plain(s0);
        }
//@ endfn
}
} // verus!
fn main() {}
