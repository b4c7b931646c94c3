//! T and C: boundary markers and marker trees.
use crate::raw::*;
use crate::rt::*;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine::Tine;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::Bound;
use std::cmp::Ordering;
use std::collections::BTreeSet;
use Bound::*;
use Tine::*;

pub type Tree = TineTree<Tok>;
pub type Raw = RawInterval<Tok>;

/// A marker at `v`.
fn tine_at<T>(v: T) -> Tine<T> {
    match any_below(6) {
        0 => Lower(Include(v)),
        1 => Lower(Exclude(v)),
        2 => Point(Include(v)),
        3 => Point(Exclude(v)),
        4 => Upper(Include(v)),
        _ => Upper(Exclude(v)),
    }
}
pub fn any_tine() -> Tine<Tok> {
    match any_below(3) {
        0 => Lower(Infinite),
        1 => Upper(Infinite),
        _ => tine_at(any_tok()),
    }
}
/// Membership just below, at and just above the marker.
fn around<T>(t: &Tine<T>) -> (bool, bool, bool) {
    match t {
        Lower(Include(_)) => (false, true, true),
        Lower(_) => (false, false, true),
        Point(Include(_)) => (false, true, false),
        Point(_) => (true, false, true),
        Upper(Include(_)) => (true, true, false),
        Upper(_) => (true, false, false),
    }
}
fn place(t: &Tine<Tok>) -> (usize, Option<Tok>) {
    match t {
        Lower(Include(v)) | Lower(Exclude(v)) | Point(Include(v)) | Point(Exclude(v)) | Upper(Include(v)) | Upper(Exclude(v)) => {
            (1, Some(v.clone()))
        }
        Lower(Infinite) => (0, None),
        Upper(Infinite) => (2, None),
        Point(Infinite) => (3, None),
    }
}
pub fn tine_same(a: &Tine<Tok>, b: &Tine<Tok>) -> bool {
    match (a, b) {
        (Lower(x), Lower(y)) | (Point(x), Point(y)) | (Upper(x), Upper(y)) => bound_same(x, y),
        _ => false,
    }
}

// ---- T01 ---------------------------------------------------------------------
pub fn h_T01_order() {
    let a = any_tine();
    let b = any_tine();
    let (i, x) = place(&a);
    let (j, y) = place(&b);
    let e = if i != j {
        i.cmp(&j)
    } else {
        match (&x, &y) {
            (Some(x), Some(y)) => x.cmp(y),
            _ => Ordering::Equal,
        }
    };
    check(a.cmp(&b) == e, "markers are ordered by position");
    check(a.partial_cmp(&b) == Some(e), "partial comparison agrees");
    check(b.cmp(&a) == e.reverse(), "comparison is consistent in both directions");
    check((a < b) == (e == Ordering::Less), "less-than agrees");
    check((a > b) == (e == Ordering::Greater), "greater-than agrees");
    check((a <= b) == (e != Ordering::Greater), "at-most agrees");
    check((a >= b) == (e != Ordering::Less), "at-least agrees");
    let (least, most) = if e == Ordering::Greater { (&b, &a) } else { (&a, &b) };
    check(a.clone().max(b.clone()) == *most, "the greater of two agrees");
    check(a.clone().min(b.clone()) == *least, "the lesser of two agrees");
    reach("order");
}
// ---- T02 ---------------------------------------------------------------------
pub fn h_T02_markers() {
    let r: Raw = any_raw();
    let l = spec_lb(&r);
    let u = spec_ub(&r);
    let point = matches!(&r, RawInterval::Point(_));
    let mut it = Tine::from_raw_interval(r.clone()).into_iter();
    let x = it.next();
    let y = it.next();
    check(it.next().is_none(), "at most two markers");
    match (l, u) {
        (Some(l), Some(u)) => {
            if point {
                check(y.is_none(), "a point is one marker");
                check(match &x { Some(x) => tine_same(x, &Point(l)), None => false }, "the point's marker");
            } else {
                check(match &x { Some(x) => tine_same(x, &Lower(l)), None => false }, "the lower boundary's marker");
                check(match &y { Some(y) => tine_same(y, &Upper(u)), None => false }, "the upper boundary's marker");
            }
        }
        _ => check(x.is_none() && y.is_none(), "the empty interval has no marker"),
    }
    reach("markers");
}
pub fn h_T02_tree() {
    let p: Tok = any_tok();
    let r: Raw = any_raw();
    let m = raw_has(&r, &p);
    let t = if any_bool() { Tree::from_raw_interval(r) } else { Tree::from(r) };
    set_wf(&t, "tree of one interval is well formed");
    check(set_member(&t, &p) == m, "tree of one interval has its points");
    let n = if any_bool() { Tree::new() } else { Tree::default() };
    set_wf(&n, "new tree is well formed");
    check(!set_member(&n, &p), "a new tree has no points");
    reach("tree");
}
pub fn h_T02_queries() {
    let v: Tok = any_tok();
    let t = tine_at(v.clone());
    let (b, at, a) = around(&t);
    let i = t.clone().invert();
    let (ib, iat, ia) = around(&i);
    check(ib != b && iat != at && ia != a, "inverting swaps inside and outside");
    check(i.as_ref() == Some(&v), "inverting keeps the value");
    check(tine_same(&i.invert(), &t), "inverting twice is the identity");
    check(t.is_lower_bound() == a, "a lower boundary has members just above");
    check(t.is_upper_bound() == b, "an upper boundary has members just below");
    check(t.is_point_include() == (at && !a && !b), "single point query");
    check(t.is_point_exclude() == (!at && a && b), "missing point query");
    check(t.as_ref() == Some(&v), "value access");
    check(bound_same(&t.clone().into_inner(), &if at { Include(v) } else { Exclude(v) }), "bound access");
    let li: Tine<Tok> = Lower(Infinite);
    let ui: Tine<Tok> = Upper(Infinite);
    check(li.is_lower_bound() && !li.is_upper_bound() && ui.is_upper_bound() && !ui.is_lower_bound(), "unbounded ends");
    check(!li.is_point_include() && !li.is_point_exclude() && !ui.is_point_include() && !ui.is_point_exclude(), "unbounded ends are no points");
    check(li.as_ref().is_none() && ui.as_ref().is_none(), "unbounded ends have no value");
    reach("queries");
}
// ---- T03 ---------------------------------------------------------------------
pub fn h_T03_merge() {
    let v: Tok = any_tok();
    let x = tine_at(v.clone());
    let y = tine_at(v.clone());
    let (a, b, c) = around(&x);
    let (d, e, f) = around(&y);
    let (r, s) = match any_below(3) {
        0 => (x.union(&y), (a || d, b || e, c || f)),
        1 => (x.intersect(&y), (a && d, b && e, c && f)),
        _ => (x.minus(&y), (a && !d, b && !e, c && !f)),
    };
    match &r {
        None => check(s.0 == s.1 && s.1 == s.2, "no marker exactly when membership does not change there"),
        Some(t) => {
            let t2 = around(t);
            check(t2.0 == s.0, "membership just below");
            check(t2.1 == s.1, "membership at the value");
            check(t2.2 == s.2, "membership just above");
            check(t.as_ref() == Some(&v), "the marker stays on the value");
        }
    }
    reach("merge");
}
pub fn h_T03_ends() {
    let low = any_bool();
    let end = || -> Tine<Tok> { if low { Lower(Infinite) } else { Upper(Infinite) } };
    let u = end().union(&end());
    check(match &u { Some(t) => tine_same(t, &end()), None => false }, "union of unbounded ends");
    let i = end().intersect(&end());
    check(match &i { Some(t) => tine_same(t, &end()), None => false }, "intersection of unbounded ends");
    check(end().minus(&end()).is_none(), "difference of unbounded ends");
    reach("ends");
}
// ---- trees -------------------------------------------------------------------
pub fn h_C01_insert() {
    let p: Tok = any_tok();
    let mut t: Tree = any_set(false);
    let r = any_raw::<Tok>();
    let e = set_member(&t, &p) || raw_has(&r, &p);
    t.union_in_place(&r);
    set_wf(&t, "tree after adding an interval");
    check(set_member(&t, &p) == e, "points after adding an interval");
    reach("insert");
}
pub fn h_C01_union() {
    let p: Tok = any_tok();
    set_witness(&p);
    let a: Tree = any_set(false);
    let b: Tree = any_set(false);
    let (m, n) = (set_member(&a, &p), set_member(&b, &p));
    let r = a.union(&b);
    set_wf(&r, "union of two trees");
    check(set_member(&r, &p) == (m || n), "points of the union");
    reach("union");
}
pub fn h_C02_remove() {
    let p: Tok = any_tok();
    let mut t: Tree = any_set(false);
    let r = any_raw::<Tok>();
    let e = set_member(&t, &p) && !raw_has(&r, &p);
    t.minus_in_place(&r);
    set_wf(&t, "tree after removing an interval");
    check(set_member(&t, &p) == e, "points after removing an interval");
    reach("remove");
}
pub fn h_C02_minus() {
    let p: Tok = any_tok();
    set_witness(&p);
    let a: Tree = any_set(false);
    let b: Tree = any_set(false);
    let (m, n) = (set_member(&a, &p), set_member(&b, &p));
    let r = a.minus(&b);
    set_wf(&r, "difference of two trees");
    check(set_member(&r, &p) == (m && !n), "points of the difference");
    reach("minus");
}
pub fn h_C03_restrict() {
    let p: Tok = any_tok();
    let mut t: Tree = any_set(false);
    let r = any_raw::<Tok>();
    let e = set_member(&t, &p) && raw_has(&r, &p);
    t.intersect_in_place(&r);
    set_wf(&t, "tree after restricting to an interval");
    check(set_member(&t, &p) == e, "points after restricting to an interval");
    reach("restrict");
}
pub fn h_C04_intersect() {
    let p: Tok = any_tok();
    set_witness(&p);
    let a: Tree = any_set(false);
    let b: Tree = any_set(false);
    let (m, n) = (set_member(&a, &p), set_member(&b, &p));
    let r = a.intersect(&b);
    set_wf(&r, "intersection of two trees");
    check(set_member(&r, &p) == (m && n), "points of the intersection");
    reach("intersect");
}
pub fn h_C05_complement() {
    let p: Tok = any_tok();
    let t: Tree = any_set(false);
    let m = set_member(&t, &p);
    let c = t.complement();
    set_wf(&c, "complement of a tree");
    check(set_member(&c, &p) == !m, "points of the complement");

    reach("complement");
}
fn first_last(t: &Tree) -> Option<(Tine<Tok>, Tine<Tok>)> {
    let s: &BTreeSet<Tine<Tok>> = peel(t);
    let mut it = s.iter();
    let a = it.next()?;
    let z = match it.next_back() {
        Some(z) => z,
        None => a,
    };
    Some((a.clone(), z.clone()))
}
pub fn h_C06_contains() {
    let p: Tok = any_tok();
    let t: Tree = any_set(false);
    let m = set_member(&t, &p);
    check(t.contains(&p) == m, "membership query");
    reach("contains");
}
pub fn h_C06_bounds() {
    let p: Tok = any_tok();
    let t: Tree = any_set(false);
    let m = set_member(&t, &p);
    let ends = first_last(&t);
    let (l, u) = match &ends {
        Some((a, z)) => (Some(a.clone().into_inner()), Some(z.clone().into_inner())),
        None => (None, None),
    };
    let same = |x: &Option<Bound<Tok>>, y: &Option<Bound<Tok>>| match (x, y) {
        (None, None) => true,
        (Some(x), Some(y)) => bound_same(x, y),
        _ => false,
    };
    check(same(&t.lower_bound(), &l), "lower bound is the first piece's");
    check(same(&t.upper_bound(), &u), "upper bound is the last piece's");
    check(t.is_empty() == ends.is_none(), "empty exactly without boundaries");
    let r = t.enclose();
    check(raw_wf(&r), "enclosure is well formed");
    let inside = match (&l, &u) {
        (Some(l), Some(u)) => lb_has(l, &p) && ub_has(u, &p),
        _ => false,
    };
    check(raw_has(&r, &p) == inside, "enclosure reaches from the first to the last piece");
    check(!m || inside, "enclosure covers every point");
    check(raw_empty(&r) == ends.is_none(), "enclosure is empty exactly for the empty tree");
    let close = |b: Bound<Tok>| match b {
        Exclude(v) => Include(v),
        b => b,
    };
    let c = t.closure();
    check(raw_wf(&c), "closure is well formed");
    let cin = match (l, u) {
        (Some(l), Some(u)) => lb_has(&close(l), &p) && ub_has(&close(u), &p),
        _ => false,
    };
    check(raw_has(&c, &p) == cin, "closure is the enclosure with inclusive finite bounds");
    reach("bounds");
}
pub fn h_C06_full() {
    let t: Tree = any_set(false);
    let s: &BTreeSet<Tine<Tok>> = peel(&t);
    let mut it = s.iter();
    let (a, b, c) = (it.next(), it.next(), it.next());
    let full = matches!((a, b, c), (Some(Lower(Infinite)), Some(Upper(Infinite)), None));
    check(t.is_full() == full, "full exactly when the whole line is covered");
    reach("full");
}
/// The pieces taken from both ends hold exactly the tree's points.
fn drain<I: DoubleEndedIterator<Item = Raw>>(mut it: I, p: &Tok) -> bool {
    let mut m = false;
    loop {
        let x = if any_bool() { it.next() } else { it.next_back() };
        let Some(x) = x else { break };
        m = m || raw_has(&x, p);
    }
    m
}
/// The pieces taken from both ends are proper and in order.
fn order<I: DoubleEndedIterator<Item = Raw>>(mut it: I) {
    let mut front: Option<Bound<Tok>> = None;
    let mut back: Option<Bound<Tok>> = None;
    loop {
        let f = any_bool();
        let x = if f { it.next() } else { it.next_back() };
        let Some(x) = x else { break };
        check(raw_wf(&x), "pieces are well formed");
        let (Some(l), Some(u)) = (spec_lb(&x), spec_ub(&x)) else {
            check(false, "no piece is empty");
            break;
        };
        if let Some(q) = &front {
            check(apart(q, &l), "pieces come after the ones taken from the front");
        }
        if let Some(q) = &back {
            check(apart(&u, q), "pieces come before the ones taken from the back");
        }
        if f {
            front = Some(u);
        } else {
            back = Some(l);
        }
    }
}
pub fn h_C07_borrowing() {
    let p: Tok = any_tok();
    let t: Tree = any_set(false);
    let m = set_member(&t, &p);
    let r = drain(t.interval_iter(), &p);
    check(r == m, "the pieces hold exactly the tree's points");
    reach("borrowing");
}
pub fn h_C07_consuming() {
    let p: Tok = any_tok();
    let t: Tree = any_set(false);
    let m = set_member(&t, &p);
    let r = drain(t.into_iter(), &p);
    check(r == m, "the pieces hold exactly the tree's points");
    reach("consuming");
}
pub fn h_C07_borrowing_order() {
    let t: Tree = any_set(false);
    order(t.interval_iter());
    reach("borrowing order");
}
pub fn h_C07_consuming_order() {
    let t: Tree = any_set(false);
    order(t.into_iter());
    reach("consuming order");
}
pub fn h_C07_provided() {
    let t: Tree = any_set(false);
    crate::interval::provided(|| t.interval_iter(), t.interval_iter(), true);
}
pub fn h_C07_provided_consuming() {
    let t: Tree = any_set(false);
    crate::interval::provided(|| t.clone().into_iter(), t.interval_iter(), true);
}
/// An arbitrary sequence of intervals that remembers what the witness saw.
struct Seq<'a> {
    p: &'a Tok,
    any: &'a mut bool,
    ended: &'a mut bool,
}
impl Iterator for Seq<'_> {
    type Item = Raw;
    fn next(&mut self) -> Option<Raw> {
        if *self.ended || any_bool() {
            *self.ended = true;
            return None;
        }
        let r: Raw = any_raw();
        *self.any = *self.any || raw_has(&r, self.p);
        Some(r)
    }
}
pub fn h_C08_collect() {
    let p: Tok = any_tok();
    set_witness(&p);
    let mut any = false;
    let mut ended = false;
    let t: Tree = Seq { p: &p, any: &mut any, ended: &mut ended }.collect();
    // what the code did not ask for is part of the sequence all the same
    while (Seq { p: &p, any: &mut any, ended: &mut ended }).next().is_some() {}
    set_wf(&t, "collected tree is well formed");
    check(set_member(&t, &p) == any, "collected tree has exactly the points of the sequence");
    reach("collect");
}
pub fn h_C08_from() {
    let p: Tok = any_tok();
    set_witness(&p);
    let mut any = false;
    let mut ended = false;
    let t: Tree = Tree::from(Seq { p: &p, any: &mut any, ended: &mut ended });
    // what the code did not ask for is part of the sequence all the same
    while (Seq { p: &p, any: &mut any, ended: &mut ended }).next().is_some() {}
    set_wf(&t, "converted tree is well formed");
    check(set_member(&t, &p) == any, "converted tree has exactly the points of the sequence");
    reach("from");
}
