//@ append float/filter.rs
use i_float::adapter::FloatPointAdapter;
use i_float::float::compatible::FloatPointCompatible;
use i_float::float::number::FloatNumber;
use i_float::int::point::IntPoint;
use i_shape::float::adapter::ShapesToFloat;
use i_shape::float::simple::SimplifyContour;
use crate::core::fill_rule::FillRule;
use crate::core::overlay::{Overlay, ShapeType, ContourDirection};
use crate::core::overlay_rule::OverlayRule;
use crate::core::solver::{Solver, Strategy, Precision};
use crate::core::simplify::Simplify;
use crate::float::clip::FloatClip;
use crate::float::filter::ContourFilter;
use crate::float::overlay::FloatOverlay;
use crate::float::simplify::SimplifyShape;
use crate::float::single::SingleFloatOverlay;
use crate::float::slice::FloatSlice;
use crate::float::source::resource::OverlayResource;
use crate::float::string_overlay::FloatStringOverlay;
use crate::string::clip::{ClipRule, IntClip};
use crate::string::overlay::StringOverlay;
use crate::string::rule::StringRule;
use crate::string::slice::IntSlice;
type P = (i32, i32);
type F<T> = [T; 2];
const RULES: [OverlayRule; 7] = [OverlayRule::Subject, OverlayRule::Clip, OverlayRule::Intersect, OverlayRule::Union, OverlayRule::Difference, OverlayRule::InverseDifference, OverlayRule::Xor];
const FILLS: [FillRule; 4] = [FillRule::EvenOdd, FillRule::NonZero, FillRule::Positive, FillRule::Negative];
fn direction<S: Src>(s: &mut S) -> ContourDirection { if s.bool() { ContourDirection::CounterClockwise } else { ContourDirection::Clockwise } }
fn solver<S: Src>(s: &mut S) -> Solver {
    let st = [Strategy::List, Strategy::Tree, Strategy::Frag, Strategy::Auto][s.usize_in(0, 3)];
    let solver = Solver { strategy: st, precision: if s.bool() { Precision::MEDIUM } else { Precision::HIGH }, ..Solver::default() };
    s.note("solver", &(solver.strategy, solver.precision));
    solver
}
// shapes of contours, some of them empty or of one or two points
fn source<S: Src>(s: &mut S, name: &str) -> Vec<Vec<Vec<P>>> {
    let mut shapes = vec![];
    for _ in 0..s.usize_in(0, 3) {
        let mut shape = vec![];
        for _ in 0..s.usize_in(0, 2) {
            let (x, y, n) = (s.i32_in(-12, 12), s.i32_in(-12, 12), s.usize_in(0, 6));
            if s.bool() {
                let (w, h) = (s.i32_in(1, 8), s.i32_in(1, 8));
                shape.push(if s.bool() { vec![(x, y), (x + w, y), (x + w, y + h), (x, y + h)] } else { vec![(x, y), (x, y + h), (x + w, y)] });
            } else {
                shape.push((0..n).map(|_| (x + s.i32_in(-6, 6), y + s.i32_in(-6, 6))).collect());
            }
        }
        shapes.push(shape);
    }
    s.note(name, &shapes);
    shapes
}
fn ints(c: &[P]) -> Vec<IntPoint> { c.iter().map(|p| IntPoint::new(p.0, p.1)).collect() }
fn int_shapes(v: &[Vec<Vec<P>>]) -> Vec<Vec<Vec<IntPoint>>> { v.iter().map(|q| q.iter().map(|c| ints(c)).collect()).collect() }
fn flat<E: Clone>(v: &[Vec<Vec<E>>]) -> Vec<Vec<E>> { v.iter().flatten().cloned().collect() }

// ---- the full calls, on integers ----
fn subj_clip(subj: &[Vec<IntPoint>], clip: &[Vec<IntPoint>]) -> Overlay {
    let mut o = Overlay::new(0);
    for c in subj { o.add_path_iter(c.iter().copied(), ShapeType::Subject); }
    for c in clip { o.add_path_iter(c.iter().copied(), ShapeType::Clip); }
    o
}
fn area_lines(area: &[Vec<IntPoint>], lines: &[[IntPoint; 2]]) -> StringOverlay {
    let mut o = StringOverlay::new(0);
    for c in area { o.add_shape_contour_iter(c.iter().copied()); }
    for &l in lines { o.add_string_line(l); }
    o
}
fn steps(p: &[IntPoint]) -> Vec<[IntPoint; 2]> { (1..p.len()).map(|i| [p[i - 1], p[i]]).collect() }
fn floated<T: FloatNumber + PartialEq>(i: Vec<Vec<Vec<IntPoint>>>, a: &FloatPointAdapter<F<T>, T>, clean: bool) -> Vec<Vec<Vec<F<T>>>> {
    let mut f: Vec<Vec<Vec<F<T>>>> = i.to_float(a);
    if clean { f.simplify_contour(a); }
    f
}
struct Want<T: FloatNumber> { a: FloatPointAdapter<F<T>, T>, subj: Vec<Vec<IntPoint>>, clip: Vec<Vec<IntPoint>> }
impl<T: FloatNumber + PartialEq> Want<T> {
    fn new(subj: &[Vec<F<T>>], clip: &[Vec<F<T>>]) -> Self {
        let a = FloatPointAdapter::with_iter(subj.iter().flatten().chain(clip.iter().flatten()));
        let conv = |v: &[Vec<F<T>>]| v.iter().map(|c| c.iter().map(|p| a.float_to_int(p)).collect()).collect();
        let (s, c) = (conv(subj), conv(clip));
        Self { a, subj: s, clip: c }
    }
    fn overlay(&self, rule: OverlayRule, fill: FillRule, d: ContourDirection, f: ContourFilter<T>, solver: Solver) -> Vec<Vec<Vec<F<T>>>> {
        let area = self.a.sqr_float_to_int(f.min_area);
        floated(subj_clip(&self.subj, &self.clip).overlay_custom(rule, fill, d, f.simplify_contour, area, solver), &self.a, f.clean_result)
    }
    fn extract(&self, rule: OverlayRule, fill: FillRule, d: ContourDirection, f: ContourFilter<T>, solver: Solver) -> Vec<Vec<Vec<F<T>>>> {
        let area = self.a.sqr_float_to_int(f.min_area);
        floated(subj_clip(&self.subj, &self.clip).into_graph_with_solver(fill, solver).extract_shapes_custom(rule, d, f.simplify_contour, area), &self.a, f.clean_result)
    }
    fn lines(&self) -> StringOverlay { area_lines(&self.subj, &self.clip.iter().flat_map(|p| steps(p)).collect::<Vec<_>>()) }
    fn slice(&self, fill: FillRule, d: ContourDirection, f: ContourFilter<T>, solver: Solver) -> Vec<Vec<Vec<F<T>>>> {
        let area = self.a.sqr_float_to_int(f.min_area);
        floated(self.lines().into_graph_with_solver(fill, solver).extract_shapes_custom(StringRule::Slice, d, area), &self.a, f.clean_result)
    }
    fn clip(&self, fill: FillRule, rule: ClipRule, solver: Solver) -> Vec<Vec<F<T>>> {
        self.lines().clip_string_lines_with_solver(fill, rule, solver).iter().map(|p| p.iter().map(|q| self.a.int_to_float(q)).collect()).collect()
    }
}
fn standard<T: FloatNumber>(bits: u8) -> ContourFilter<T> { ContourFilter { min_area: T::from_float(0.0), simplify_contour: true, clean_result: bits <= 32 } }
struct Case { subj: Vec<Vec<Vec<P>>>, clip: Vec<Vec<Vec<P>>>, scale: f64, form: usize, rule: OverlayRule, fill: FillRule, d: ContourDirection, min_area: f64, simplify: bool, clean: bool, solver: Solver, call: usize, clip_rule: ClipRule }
fn case<S: Src>(s: &mut S) -> Case {
    let (subj, clip) = (source(s, "subject"), source(s, "clip"));
    let scale = [1.0, 0.25, 1000.0, 0.001, 65536.0][s.usize_in(0, 4)];
    let k = Case { subj, clip, scale, form: s.usize_in(0, 15), rule: RULES[s.usize_in(0, 6)], fill: FILLS[s.usize_in(0, 3)], d: direction(s), min_area: [0.0, 0.4, 4.0, 20.0][s.usize_in(0, 3)] * scale * scale,
        simplify: s.bool(), clean: s.bool(), solver: solver(s), call: s.usize_in(0, 15), clip_rule: ClipRule { invert: s.bool(), boundary_included: s.bool() } };
    s.note("scale, form, call", &(k.scale, k.form, k.call));
    s.note("rule, fill rule, direction", &(k.rule, k.fill, k.d));
    s.note("min area, simplify, clean", &(k.min_area, k.simplify, k.clean));
    s.note("clip rule", &k.clip_rule);
    k
}
impl Case {
    fn floats<T: FloatNumber>(&self, v: &[Vec<Vec<P>>]) -> Vec<Vec<Vec<F<T>>>> {
        v.iter().map(|q| q.iter().map(|c| c.iter().map(|p| [T::from_float(p.0 as f64 * self.scale), T::from_float(p.1 as f64 * self.scale)]).collect()).collect()).collect()
    }
    fn calls<T, R0, R1>(&self, r0: &R0, r1: &R1, w: &Want<T>, bits: u8)
    where T: FloatNumber + PartialEq, F<T>: FloatPointCompatible<T>, R0: OverlayResource<F<T>, T>, R1: OverlayResource<F<T>, T> {
        let filter = ContourFilter { min_area: T::from_float(self.min_area), simplify_contour: self.simplify, clean_result: self.clean };
        let (rule, fill, d, solver) = (self.rule, self.fill, self.d, self.solver);
        let ccw = ContourDirection::CounterClockwise;
        match self.call {
            0 => { vp_check!(FloatOverlay::with_subj_and_clip(r0, r1).overlay(rule, fill) == w.overlay(rule, fill, ccw, standard(bits), Solver::default()), "the float overlay is the integer one on the converted points"); }
            1 | 2 => { vp_check!(FloatOverlay::with_subj_and_clip(r0, r1).overlay_custom(rule, fill, d, filter, solver) == w.overlay(rule, fill, d, filter, solver), "the float overlay with all its arguments is the integer one"); }
            3 => { vp_check!(FloatOverlay::with_subj_and_clip(r0, r1).into_graph(fill).extract_shapes(rule) == w.extract(rule, fill, ccw, standard(bits), Solver::default()), "shapes of the float graph are those of the integer one"); }
            4 => { vp_check!(FloatOverlay::with_subj_and_clip(r0, r1).into_graph_with_solver(fill, solver).extract_shapes_custom(rule, d, filter) == w.extract(rule, fill, d, filter, solver), "shapes of the float graph with all arguments are those of the integer one"); }
            5 | 6 => { vp_check!(r0.overlay(r1, rule, fill) == w.overlay(rule, fill, ccw, standard(bits), Solver::default()), "overlaying one source with another is the overlay of subject and clip"); }
            7 => { vp_check!(r0.slice_by(r1, fill) == w.slice(fill, ccw, standard(bits), Solver::default()), "a float slice is the integer one on the converted points"); }
            8 | 9 => { vp_check!(r0.slice_custom_by(r1, fill, d, filter, solver) == w.slice(fill, d, filter, solver), "a float slice with all its arguments is the integer one"); }
            10 => { vp_check!(r1.clip_by(r0, fill, self.clip_rule) == w.clip(fill, self.clip_rule, Solver::default()), "a float clip is the integer one on the converted points"); }
            11 => { vp_check!(r1.clip_by_with_solver(r0, fill, self.clip_rule, solver) == w.clip(fill, self.clip_rule, solver), "a float clip with a solver is the integer one"); }
            12 => {
                let o = FloatOverlay::with_adapter(w.a.clone(), 0).unsafe_add_source(r1, ShapeType::Clip).unsafe_add_source(r0, ShapeType::Subject);
                let mut i = Overlay::new(0);
                for c in w.clip.iter() { i.add_path_iter(c.iter().copied(), ShapeType::Clip); }
                for c in w.subj.iter() { i.add_path_iter(c.iter().copied(), ShapeType::Subject); }
                vp_check!(o.overlay_custom(rule, fill, d, filter, solver) == floated(i.overlay_custom(rule, fill, d, filter.simplify_contour, w.a.sqr_float_to_int(filter.min_area), solver), &w.a, filter.clean_result), "sources added one by one count as what they are added as");
            }
            13 => {
                let mut o = FloatStringOverlay::with_adapter(w.a.clone(), 0);
                let conv = |v: &[Vec<IntPoint>]| v.iter().map(|c| c.iter().map(|q| w.a.int_to_float(q)).collect()).collect::<Vec<Vec<F<T>>>>();
                o = o.unsafe_add_string_lines(&conv(&w.clip)).unsafe_add_shapes(&conv(&w.subj));
                let again = |c: &Vec<IntPoint>| c.iter().map(|q| w.a.float_to_int(&w.a.int_to_float(q))).collect::<Vec<_>>();
                let mut i = StringOverlay::new(0);
                for p in w.clip.iter() { for l in steps(&again(p)) { i.add_string_line(l); } }
                for c in w.subj.iter() { i.add_shape_contour_iter(again(c).into_iter()); }
                vp_check!(o.into_graph(fill).extract_shapes_custom(StringRule::Slice, d, filter) == floated(i.into_graph(fill).extract_shapes_custom(StringRule::Slice, d, w.a.sqr_float_to_int(filter.min_area)), &w.a, filter.clean_result), "lines and contours added one by one count as what they are added as");
            }
            _ => {
                let (none, alone): (Vec<Vec<F<T>>>, Vec<Vec<F<T>>>) = (vec![], r0.iter_paths().map(|c| c.to_vec()).collect());
                let w = Want::new(&alone, &none);
                let f = ContourFilter { min_area: T::from_float(self.min_area), simplify_contour: true, clean_result: true };
                if self.call == 14 {
                    vp_check!(r0.simplify_shape(fill, d, f.min_area) == w.overlay(OverlayRule::Subject, fill, d, f, Solver::default()), "simplifying is the overlay of the subject alone");
                    vp_check!(r0.simplify_shape_with_solver(fill, d, f.min_area, solver) == w.overlay(OverlayRule::Subject, fill, d, f, solver), "simplifying with a solver is the overlay of the subject alone");
                } else {
                    vp_check!(FloatOverlay::with_subj(r0).overlay_custom(rule, fill, d, filter, solver) == w.overlay(rule, fill, d, filter, solver), "an overlay with a subject alone has no clip");
                }
            }
        }
    }
    fn run<T: FloatNumber + PartialEq>(&self, bits: u8) where F<T>: FloatPointCompatible<T> {
        let (a, b) = (self.floats::<T>(&self.subj), self.floats::<T>(&self.clip));
        let (fa, fb) = (flat(&a), flat(&b));
        let one = |v: &Vec<Vec<F<T>>>| v.first().cloned().unwrap_or_default();
        let (oa, ob) = (one(&fa), one(&fb));
        let (wa, wb) = (vec![oa.clone()], vec![ob.clone()]);
        match self.form {
            0 | 1 | 2 => self.calls(&a, &b, &Want::new(&fa, &fb), bits),
            3 => self.calls(&a, &fb, &Want::new(&fa, &fb), bits),
            4 => self.calls(&fa, &b, &Want::new(&fa, &fb), bits),
            5 => self.calls(&fa, &fb.as_slice(), &Want::new(&fa, &fb), bits),
            6 => self.calls(&fa.as_slice(), &ob, &Want::new(&fa, &wb), bits),
            7 => self.calls(&oa, &fb, &Want::new(&wa, &fb), bits),
            8 => self.calls(&oa.as_slice(), &b, &Want::new(&wa, &fb), bits),
            9 => self.calls(&a, &ob.as_slice(), &Want::new(&fa, &wb), bits),
            10 => if let Ok(q) = <[F<T>; 4]>::try_from(oa.clone()) { self.calls(&q, &b, &Want::new(&wa, &fb), bits) },
            11 => if let Ok(q) = <[Vec<F<T>>; 2]>::try_from(fa.clone()) { self.calls(&q, &ob, &Want::new(&fa, &wb), bits) },
            12 => if let Ok(q) = <[Vec<Vec<F<T>>>; 2]>::try_from(a.clone()) { self.calls(&q, &b, &Want::new(&fa, &fb), bits) },
            13 => if let Ok(q) = <[F<T>; 3]>::try_from(ob.clone()) { self.calls(&a, &q, &Want::new(&fa, &wb), bits) },
            _ => {
                // sources without a size of their own are taken by two calls only
                let w = Want::new(&fa, &fb);
                let r = match self.form { 14 => FloatOverlay::with_subj_and_clip(a.as_slice(), fb.as_slice()), _ => FloatOverlay::with_subj_and_clip(fa.as_slice(), b.as_slice()) };
                vp_check!(r.overlay(self.rule, self.fill) == w.overlay(self.rule, self.fill, ContourDirection::CounterClockwise, standard(bits), Solver::default()), "slices of contours or shapes give all their contours");
                let w = Want::new(&wa, &[]);
                vp_check!(FloatOverlay::with_subj(oa.as_slice()).overlay(self.rule, self.fill) == w.overlay(self.rule, self.fill, ContourDirection::CounterClockwise, standard(bits), Solver::default()), "a slice of points is one contour");
            }
        }
    }
}
//@ body floats64 weight=3
pub fn floats64<S: Src>(s: &mut S) { case(s).run::<f64>(64); }
//@ body floats32 weight=2
pub fn floats32<S: Src>(s: &mut S) { case(s).run::<f32>(32); }
//@ body standard_filter
pub fn standard_filter<S: Src>(s: &mut S) {
    let _ = s.bool();
    let (f, g) = (ContourFilter::<f64>::default(), ContourFilter::<f32>::default());
    vp_check!(f.min_area == 0.0 && f.simplify_contour && !f.clean_result && g.min_area == 0.0 && g.simplify_contour && g.clean_result, "the default filter keeps all areas, simplifies, and cleans what has the precision of f32");
    let (p, q) = (Solver::default(), Solver::AUTO);
    vp_check!(p.strategy == q.strategy && p.precision == q.precision && p.strategy == Strategy::Auto && p.precision == Precision::HIGH, "the default solver chooses for itself, with high precision");
}
//@ body shortcuts weight=3
pub fn shortcuts<S: Src>(s: &mut S) {
    let (subj, clip) = (int_shapes(&source(s, "subject")), int_shapes(&source(s, "clip")));
    let (rule, fill, d) = (RULES[s.usize_in(0, 6)], FILLS[s.usize_in(0, 3)], direction(s));
    let (simplify, min_area, call) = (s.bool(), [0, 1, 9, 30][s.usize_in(0, 3)], s.usize_in(0, 9));
    s.note("rule, fill rule, direction", &(rule, fill, d));
    s.note("simplify, min area, call", &(simplify, min_area, call));
    let (fs, fc) = (flat(&subj), flat(&clip));
    let one = |v: &Vec<Vec<IntPoint>>| v.first().cloned().unwrap_or_default();
    let (os, oc) = (one(&fs), one(&fc));
    let full = |s: &[Vec<IntPoint>], c: &[Vec<IntPoint>]| subj_clip(s, c).overlay_custom(rule, fill, ContourDirection::CounterClockwise, true, 0, Solver::AUTO);
    let simple = |s: &[Vec<IntPoint>]| subj_clip(s, &[]).overlay_custom(OverlayRule::Subject, fill, d, simplify, min_area, Solver::AUTO);
    match call {
        0 => { vp_check!(Overlay::with_contour(&os, &oc).overlay(rule, fill) == full(&[os.clone()], &[oc.clone()]), "an overlay of two contours"); }
        1 => { vp_check!(Overlay::with_contours(&fs, &fc).overlay(rule, fill) == full(&fs, &fc), "an overlay of contours"); }
        2 | 3 => { vp_check!(Overlay::with_shapes(&subj, &clip).overlay(rule, fill) == full(&fs, &fc), "an overlay of shapes is that of all their contours"); }
        4 => {
            let mut o = Overlay::new(3);
            if let Some(q) = clip.first() { o.add_shape(q, ShapeType::Clip); }
            o.add_shapes(&subj, ShapeType::Subject);
            o.add_contours(&fc[clip.first().map(|q| q.len()).unwrap_or(0)..], ShapeType::Clip);
            let mut w = Overlay::new(0);
            let k = clip.first().map(|q| q.len()).unwrap_or(0);
            for c in fc[..k].iter() { w.add_path_iter(c.iter().copied(), ShapeType::Clip); }
            for c in fs.iter() { w.add_path_iter(c.iter().copied(), ShapeType::Subject); }
            for c in fc[k..].iter() { w.add_path_iter(c.iter().copied(), ShapeType::Clip); }
            vp_check!(o.overlay_custom(rule, fill, d, simplify, min_area, Solver::AUTO) == w.overlay_custom(rule, fill, d, simplify, min_area, Solver::AUTO), "what is added as shapes and contours counts as all its contours");
        }
        5 => {
            let (g, w) = (subj_clip(&fs, &fc).into_graph(fill), subj_clip(&fs, &fc).into_graph_with_solver(fill, Solver::AUTO));
            vp_check!(g.extract_shapes(rule) == w.extract_shapes_custom(rule, ContourDirection::CounterClockwise, true, 0), "shapes of a graph, counterclockwise, simplified and of any area");
        }
        6 => { vp_check!(os.simplify(fill, d, simplify, min_area) == simple(&[os.clone()]), "simplifying a contour"); }
        7 => { vp_check!(fs.as_slice().simplify(fill, d, simplify, min_area) == simple(&fs), "simplifying contours"); }
        8 => { let q = subj.first().cloned().unwrap_or_default(); vp_check!(q.simplify(fill, d, simplify, min_area) == simple(&q), "simplifying a shape"); }
        _ => { vp_check!(subj.as_slice().simplify(fill, d, simplify, min_area) == simple(&fs), "simplifying shapes"); }
    }
}
//@ body line_shortcuts weight=3
pub fn line_shortcuts<S: Src>(s: &mut S) {
    let (area, other) = (int_shapes(&source(s, "area")), int_shapes(&source(s, "lines")));
    let (fill, rule, form, call) = (FILLS[s.usize_in(0, 3)], ClipRule { invert: s.bool(), boundary_included: s.bool() }, s.usize_in(0, 2), s.usize_in(0, 7));
    s.note("fill rule, clip rule", &(fill, rule));
    s.note("form, call", &(form, call));
    let fa = flat(&area);
    let paths = flat(&other);
    let path = paths.first().cloned().unwrap_or_default();
    let lines: Vec<[IntPoint; 2]> = paths.iter().filter(|p| p.len() > 1).map(|p| [p[0], p[1]]).collect();
    let line = lines.first().copied().unwrap_or([IntPoint::new(-9, 1), IntPoint::new(9, 2)]);
    let shape = area.first().cloned().unwrap_or_default();
    let contour = fa.first().cloned().unwrap_or_default();
    let w: Vec<Vec<IntPoint>> = match form { 0 => fa.clone(), 1 => shape.clone(), _ => vec![contour.clone()] };
    let l: Vec<[IntPoint; 2]> = match call % 4 { 0 => vec![line], 1 => lines.clone(), 2 => steps(&path), _ => paths.iter().flat_map(|p| steps(p)).collect() };
    if call < 4 {
        let want = area_lines(&w, &l).into_graph_with_solver(fill, Solver::AUTO).extract_shapes_custom(StringRule::Slice, ContourDirection::CounterClockwise, 0);
        let r = match (form, call) {
            (0, 0) => area.slice_by_line(line, fill),
            (0, 1) => area.slice_by_lines(&lines, fill),
            (0, 2) => area.slice_by_path(&path, fill),
            (0, _) => area.slice_by_paths(&paths, fill),
            (1, 0) => shape.slice_by_line(line, fill),
            (1, 1) => shape.slice_by_lines(&lines, fill),
            (1, 2) => shape.slice_by_path(&path, fill),
            (1, _) => shape.slice_by_paths(&paths, fill),
            (_, 0) => contour.as_slice().slice_by_line(line, fill),
            (_, 1) => contour.as_slice().slice_by_lines(&lines, fill),
            (_, 2) => contour.as_slice().slice_by_path(&path, fill),
            (_, _) => contour.as_slice().slice_by_paths(&paths, fill),
        };
        vp_check!(r == want, "slicing by a line, lines, a path or paths is slicing by all their steps");
    } else {
        let want = area_lines(&w, &l).clip_string_lines_with_solver(fill, rule, Solver::AUTO);
        let r = match (form, call) {
            (0, 4) => area.clip_line(line, fill, rule),
            (0, 5) => area.clip_lines(&lines, fill, rule),
            (0, 6) => area.clip_path(&path, fill, rule),
            (0, _) => area.clip_paths(&paths, fill, rule),
            (1, 4) => shape.clip_line(line, fill, rule),
            (1, 5) => shape.clip_lines(&lines, fill, rule),
            (1, 6) => shape.clip_path(&path, fill, rule),
            (1, _) => shape.clip_paths(&paths, fill, rule),
            (_, 4) => contour.as_slice().clip_line(line, fill, rule),
            (_, 5) => contour.as_slice().clip_lines(&lines, fill, rule),
            (_, 6) => contour.as_slice().clip_path(&path, fill, rule),
            (_, _) => contour.as_slice().clip_paths(&paths, fill, rule),
        };
        vp_check!(r == want, "clipping a line, lines, a path or paths is clipping all their steps");
    }
    let (p, q) = match form {
        0 => (StringOverlay::with_shapes(&area), fa.clone()),
        1 => (StringOverlay::with_shape(&shape), shape.clone()),
        _ => (if call % 2 == 0 { StringOverlay::with_shape_contours(&fa) } else { StringOverlay::with_shape_contour(&contour) }, if call % 2 == 0 { fa.clone() } else { vec![contour.clone()] }),
    };
    let (mut p, mut w) = (p, area_lines(&q, &[]));
    if call % 2 == 0 { p.add_string_contour(&contour); } else { p.add_string_contours(&fa); }
    for c in if call % 2 == 0 { vec![contour.clone()] } else { fa.clone() } {
        if c.len() > 1 { w.add_string_line([c[c.len() - 1], c[0]]); }
        for l in steps(&c) { w.add_string_line(l); }
    }
    vp_check!(p.clip_string_lines(fill, rule) == w.clip_string_lines_with_solver(fill, rule, Solver::AUTO), "areas and closed lines are the steps of all their contours");
}
