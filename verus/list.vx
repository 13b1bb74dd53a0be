// ---- the list strategy: every pair is looked at, pass by pass, until nothing meets ----
// (std's reserve_exact needs the allocator parameter)
#![feature(allocator_api)]
//@ import strategy.vx
verus! {
use Strategy::{Auto, Frag, List, Tree};
impl Solver {
//@ item core/solver.rs const MAX_SPLIT_LIST_COUNT in Solver
//@ fn core/solver.rs Solver is_list_split
//@ spec
        ensures self.strategy is List ==> r
//@ endfn
}
impl SplitSolver {
    // the other strategy, to which a list grown long is handed over
    #[verifier::external_body]
    pub fn tree_split<C: WindingCount>(&self, snap_radius: SnapRadius, segments: Vec<Segment<C>>) -> (r: Vec<Segment<C>>)
        requires ready(segments@), snap_radius.ok()
        ensures split_from(segments@, r@)
    { unimplemented!() }
//@ fn split/solver_list.rs SplitSolver list_split
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ attr #[verifier::loop_isolation(false)]
//@ index_loops
//@ sub <<<let mut marks = Vec::new();>>> <<<let mut marks: Vec<LineMark> = Vec::new();>>>
//@ sub <<<let is_round = SplitSolver::cross($A);>>> <<<let ghost m0 = marks@; let is_round = SplitSolver::cross($A); proof { lemma_marked_pair(segments@, m0, marks@, need_to_fix, is_round, i, j, radius as int); }>>>
//@ sub <<<if marks.is_empty() {>>> <<<proof { lemma_marked_row(segments@, marks@, need_to_fix, n - 1); if marks@.len() == 0 { lemma_unmarked(segments@, marks@, need_to_fix); assert(split_from(begun, segments@)); } } if marks.is_empty() {>>>
//@ sub <<<segments = self.apply(&mut marks, $A);>>> <<<let ghost (s1, m1) = (segments@, marks@); proof { lemma_fair(s1, m1, need_to_fix); /* room: the pieces of one pass, and their counts, fit in memory and in 32 bits */ assume(smag(s1) + mark_mag(s1, m1) <= i32::MAX && s1.len() + m1.len() < usize::MAX); } segments = self.apply(&mut marks, $A); proof { lemma_passed(begun, s1, m1, marks@, segments@, need_to_fix); }>>>
//@ sub <<<return self.tree_split($A);>>> <<<let ghost s2 = segments@; let r = self.tree_split($A); proof { lemma_balanced(begun, s2, r@); } return r;>>>
//@ spec
        requires ready(segments@), snap_radius.ok()
        ensures split_from(segments@, r@)
//@ entry
        let ghost begun = segments@;
        proof { lemma_begun(begun); }
//@ loop 0
            invariant snap_radius.ok(), under_way(begun, segments@, need_to_fix)
//@ loopbody 0
            let ghost n = segments@.len() as int;
//@ before radius
            proof { lemma_marked_start(segments@, marks@); }
//@ loop 1
                invariant
                    segments@.len() == n, n > 1, under_way(begun, segments@, true), radius >= 1, snap_radius.ok(),
                    marked_to(segments@, marks@, need_to_fix, i as int, i as int)
//@ loopbody 1
                proof { lemma_marked_row(segments@, marks@, need_to_fix, i as int); }
//@ loop 2
                    invariant_except_break
                        marked_to(segments@, marks@, need_to_fix, i as int, it2 as int)
                    invariant
                        segments@.len() == n, i < n - 1, it2 > i, under_way(begun, segments@, true), radius >= 1,
                        *ei == segments@[i as int].x_segment, y_min(*ei) == ri.min, y_max(*ei) == ri.max
                    ensures
                        marked_to(segments@, marks@, need_to_fix, i as int, n)
//@ loopbody 2
                    proof {
                        assert(seg_ok(segments@[i as int].x_segment) && seg_ok(segments@[it2 as int].x_segment));
                        if segments@[i as int].x_segment.b.x < segments@[it2 as int].x_segment.a.x { lemma_marked_beyond(segments@, marks@, need_to_fix, i as int, it2 as int); }
                        let (x, y) = (segments@[i as int].x_segment, segments@[it2 as int].x_segment);
                        if y_max(x) < y_min(y) || y_max(y) < y_min(x) { lemma_apart_y(x, y); lemma_marked_apart(segments@, marks@, need_to_fix, i as int, it2 as int); }
                    }
//@ after_loop 2
                proof { lemma_marked_row(segments@, marks@, need_to_fix, i as int); }
//@ endfn
}
}
fn main() {}
