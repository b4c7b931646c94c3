//! S: selections over a discrete element type with least and greatest value.
//! A selection is canonical when every piece of its tree has exclusive or
//! unbounded ends and a value, and pieces have a value missing between them.
use crate::contract::raw_denormal;
use crate::interval::*;
use crate::raw::*;
use crate::rt::*;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine::Tine;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::{Bound, Interval, Selection};
use std::collections::BTreeSet;
use Bound::*;

pub type Sel = Selection<Fin>;
pub type FTree = TineTree<Fin>;

/// Any selection as the library builds them.
pub fn any_sel() -> Sel {
    wrap(any_set::<FTree>(true))
}
pub fn tree_of(s: &Sel) -> &FTree {
    peel(s)
}
pub fn sel_has(s: &Sel, p: &Fin) -> bool {
    set_member(tree_of(s), p)
}
fn made(s: &Sel, p: &Fin, e: bool) {
    set_wf(tree_of(s), "selection is well formed");
    set_canon(tree_of(s), "selection is in canonical form");
    check(sel_has(s, p) == e, "selection has exactly the requested points");
}
pub fn begin() -> Fin {
    discrete();
    let p: Fin = any_tok();
    set_witness(&p);
    p
}

// ---- what the summaries used here rest on, beyond the tree properties ----------
pub fn h_S00_insert() {
    discrete();
    let mut t: FTree = any_set(true);
    let r: FRaw = any_raw();
    assume(raw_denormal(&r));
    t.union_in_place(&r);
    set_wf(&t, "tree after adding a denormalized interval");
    set_canon(&t, "canonical trees stay canonical when a denormalized interval is added");
    reach("insert");
}
fn denormal_pieces<I: DoubleEndedIterator<Item = FRaw>>(mut it: I) {
    loop {
        let x = if any_bool() { it.next() } else { it.next_back() };
        let Some(x) = x else { break };
        check(raw_denormal(&x), "pieces of a canonical tree are denormalized and have a value");
    }
}
pub fn h_S00_borrowed_pieces() {
    discrete();
    let t: FTree = any_set(true);
    denormal_pieces(t.interval_iter());
    reach("borrowed pieces");
}
pub fn h_S00_owned_pieces() {
    discrete();
    let t: FTree = any_set(true);
    denormal_pieces(t.into_iter());
    reach("owned pieces");
}

// ---- S01 .. S04 ------------------------------------------------------------------
pub fn h_S01_complement() {
    let p = begin();
    let s = any_sel();
    let m = sel_has(&s, &p);
    made(&s.complement(), &p, !m);
    reach("complement");
}
pub fn h_S02_union() {
    let p = begin();
    let (a, b) = (any_sel(), any_sel());
    let (m, n) = (sel_has(&a, &p), sel_has(&b, &p));
    made(&a.union(&b), &p, m || n);
    reach("union");
}
pub fn h_S02_add() {
    let p = begin();
    let mut s = any_sel();
    let i = any_interval();
    let e = sel_has(&s, &p) || int_has(&i, &p);
    s.union_in_place(i);
    made(&s, &p, e);
    reach("add");
}
pub fn h_S03_minus() {
    let p = begin();
    let (a, b) = (any_sel(), any_sel());
    let (m, n) = (sel_has(&a, &p), sel_has(&b, &p));
    made(&a.minus(&b), &p, m && !n);
    reach("minus");
}
pub fn h_S03_remove() {
    let p = begin();
    let mut s = any_sel();
    let i = any_interval();
    let e = sel_has(&s, &p) && !int_has(&i, &p);
    s.minus_in_place(i);
    made(&s, &p, e);
    reach("remove");
}
pub fn h_S04_intersect() {
    let p = begin();
    let (a, b) = (any_sel(), any_sel());
    let (m, n) = (sel_has(&a, &p), sel_has(&b, &p));
    made(&a.intersect(&b), &p, m && n);
    reach("intersect");
}
pub fn h_S04_restrict() {
    let p = begin();
    let mut s = any_sel();
    let i = any_interval();
    let e = sel_has(&s, &p) && int_has(&i, &p);
    s.intersect_in_place(i);
    made(&s, &p, e);
    reach("restrict");
}
/// Whenever they share a point, it can be the witness.
pub fn h_S04_shared() {
    let p = begin();
    let (a, b) = (any_sel(), any_sel());
    assume(sel_has(&a, &p) && sel_has(&b, &p));
    check(a.intersects(&b), "selections with a shared point intersect");
    reach("shared");
}

/// Disjoint selections: no point, whatever the witness, is in both.
pub fn h_S04_apart() {
    let p = begin();
    let (a, b) = (any_sel(), any_sel());
    assume(!(sel_has(&a, &p) && sel_has(&b, &p)));
    set_tag1(tree_of(&a));
    set_tag2(tree_of(&b));
    if a.intersects(&b) {
        assume(!sets_meet(tree_of(&a), tree_of(&b)));
        check(false, "disjoint selections do not intersect");
    }
    reach("apart");
}

// ---- S05 -------------------------------------------------------------------------
/// An arbitrary sequence of intervals that remembers what the witness saw.
pub struct Ints<'a> {
    pub p: &'a Fin,
    pub any: &'a mut bool,
    pub ended: &'a mut bool,
}
impl Iterator for Ints<'_> {
    type Item = Int;
    fn next(&mut self) -> Option<Int> {
        if *self.ended || any_bool() {
            *self.ended = true;
            return None;
        }
        let i = any_interval();
        *self.any = *self.any || int_has(&i, self.p);
        Some(i)
    }
}
pub struct Points<'a> {
    pub p: &'a Fin,
    pub any: &'a mut bool,
    pub ended: &'a mut bool,
}
impl Iterator for Points<'_> {
    type Item = Fin;
    fn next(&mut self) -> Option<Fin> {
        if *self.ended || any_bool() {
            *self.ended = true;
            return None;
        }
        let v: Fin = any_tok();
        *self.any = *self.any || v == *self.p;
        Some(v)
    }
}
pub fn h_S05_one() {
    let p = begin();
    let i = any_interval();
    let m = int_has(&i, &p);
    made(&Sel::from(i), &p, m);
    reach("one");
}
pub fn h_S05_intervals() {
    let p = begin();
    let mut any = false;
    let mut ended = false;
    let s: Sel = Ints { p: &p, any: &mut any, ended: &mut ended }.collect();
    // what the code did not ask for is part of the sequence all the same
    while (Ints { p: &p, any: &mut any, ended: &mut ended }).next().is_some() {}
    made(&s, &p, any);
    reach("intervals");
}
pub fn h_S05_points() {
    let p = begin();
    let mut any = false;
    let mut ended = false;
    let s: Sel = Points { p: &p, any: &mut any, ended: &mut ended }.collect();
    // what the code did not ask for is part of the sequence all the same
    while (Points { p: &p, any: &mut any, ended: &mut ended }).next().is_some() {}
    made(&s, &p, any);
    reach("points");
}
pub fn h_S05_extend() {
    let p = begin();
    let mut s = any_sel();
    let mut any = sel_has(&s, &p);
    let mut ended = false;
    s.extend(Ints { p: &p, any: &mut any, ended: &mut ended });
    // what the code did not ask for is part of the sequence all the same
    while (Ints { p: &p, any: &mut any, ended: &mut ended }).next().is_some() {}
    made(&s, &p, any);
    reach("extend");
}
pub fn h_S05_constants() {
    let p = begin();
    let (s, e) = match any_below(4) {
        0 => (Sel::new(), false),
        1 => (Sel::empty(), false),
        2 => (Sel::default(), false),
        _ => (Sel::full(), true),
    };
    made(&s, &p, e);
    reach("constants");
}

// ---- S06 -------------------------------------------------------------------------
pub fn h_S06_contains() {
    let p = begin();
    let s = any_sel();
    let m = sel_has(&s, &p);
    check(s.contains(&p) == m, "membership");
    reach("contains");
}
pub fn h_S06_empty() {
    let p = begin();
    let s = any_sel();
    let m = sel_has(&s, &p);
    let b: &BTreeSet<Tine<Fin>> = peel(tree_of(&s));
    let none = b.iter().next().is_none();
    let e = s.is_empty();
    check(e == none, "empty exactly without pieces");
    check(!(m && e), "selections with a point are not empty");
    let f = s.is_full();
    check(m || !f, "full selections miss no point");
    let mut it = b.iter();
    let whole = matches!(
        (it.next(), it.next(), it.next()),
        (Some(Tine::Lower(Infinite)), Some(Tine::Upper(Infinite)), None)
    );
    check(f == whole, "full exactly when one piece reaches over everything");
    reach("empty");
}
pub fn h_S06_bounds() {
    let p = begin();
    let s = any_sel();
    let m = sel_has(&s, &p);
    let none = s.is_empty();
    match s.lower_bound() {
        Some(Include(v)) => {
            check(!none, "no lower bound without points");
            check(sel_has(&s, &v), "the lower bound is a member");
            check(!m || v <= p, "no member lies below the lower bound");
        }
        None => check(none, "lower bound of a selection with points"),
        _ => check(false, "the lower bound is inclusive"),
    }
    match s.upper_bound() {
        Some(Include(v)) => {
            check(!none, "no upper bound without points");
            check(sel_has(&s, &v), "the upper bound is a member");
            check(!m || p <= v, "no member lies above the upper bound");
        }
        None => check(none, "upper bound of a selection with points"),
        _ => check(false, "the upper bound is inclusive"),
    }
    reach("bounds");
}
pub fn h_S06_bounded() {
    begin();
    let s = any_sel();
    let (l, r) = (s.is_left_bounded(), s.is_right_bounded());
    check(s.is_bounded() == (l && r), "bounded exactly when bounded on both sides");
    check(s.is_half_bounded() == (l != r), "half bounded exactly when bounded on one side");
    check(l && r, "selections over finite types are bounded on both sides");
    reach("bounded");
}
/// The enclosure reaches from the least to the greatest member, which
/// `h_S06_bounds` shows the bounds to be.
fn around(s: &Sel, enclose: fn(&Sel) -> Int) {
    // the outermost markers, held so that they stay known throughout
    let b: &BTreeSet<Tine<Fin>> = peel(tree_of(s));
    let held = (b.iter().next(), b.iter().next_back());
    around_ends(s, enclose);
    check(held.0.is_none() == held.1.is_none(), "a first marker comes with a last one");
}
fn around_ends(s: &Sel, enclose: fn(&Sel) -> Int) {
    match (s.lower_bound(), s.upper_bound()) {
        (Some(Include(a)), Some(Include(b))) => {
            let i = enclose(s);
            check(raw_norm(raw_of(&i)), "enclosure is in normal form");
            let Some((l, u)) = ends(raw_of(&i)) else {
                check(false, "the enclosure of points is not empty");
                return;
            };
            check(l == a, "enclosure starts at the least member");
            check(u == b, "enclosure ends at the greatest member");
        }
        (None, None) => {
            let i = enclose(s);
            check(matches!(raw_of(&i), RawInterval::Empty), "the enclosure of nothing is empty");
        }
        _ => check(false, "bounds are inclusive and both present or both absent"),
    }
}
pub fn h_S06_enclose() {
    begin();
    let s = any_sel();
    around(&s, Sel::enclose);
    reach("enclose");
}
pub fn h_S06_closure() {
    begin();
    let s = any_sel();
    around(&s, Sel::closure);
    reach("closure");
}

// ---- S07 -------------------------------------------------------------------------
/// The intervals taken from both ends hold exactly the selection's points.
fn drain<I: DoubleEndedIterator<Item = Int>>(mut it: I, p: &Fin) -> bool {
    let mut m = false;
    loop {
        let x = if any_bool() { it.next() } else { it.next_back() };
        let Some(x) = x else { break };
        m = m || int_has(&x, p);
    }
    check(it.next().is_none() && it.next_back().is_none(), "nothing follows the last interval");
    m
}
/// They are normal, have points, and come in order with a value between them.
fn order<I: DoubleEndedIterator<Item = Int>>(mut it: I) {
    let mut front: Option<Fin> = None;
    let mut back: Option<Fin> = None;
    loop {
        let f = any_bool();
        let x = if f { it.next() } else { it.next_back() };
        let Some(x) = x else { break };
        check(raw_norm(raw_of(&x)), "intervals are in normal form");
        let Some((l, u)) = ends(raw_of(&x)) else {
            check(false, "no interval is empty");
            break;
        };
        if let Some(q) = &front {
            check(apart2(q, &l), "a value is missing between intervals");
        }
        if let Some(q) = &back {
            check(apart2(&u, q), "a value is missing between intervals");
        }
        if f {
            front = Some(u);
        } else {
            back = Some(l);
        }
    }
}
pub fn h_S07_borrowing() {
    let p = begin();
    let s = any_sel();
    let m = sel_has(&s, &p);
    check(drain(s.interval_iter(), &p) == m, "the intervals hold exactly the selection's points");
    reach("borrowing");
}
pub fn h_S07_consuming() {
    let p = begin();
    let s = any_sel();
    let m = sel_has(&s, &p);
    check(drain(s.into_interval_iter(), &p) == m, "the intervals hold exactly the selection's points");
    reach("consuming");
}
pub fn h_S07_borrowing_order() {
    begin();
    order(any_sel().interval_iter());
    reach("borrowing order");
}
pub fn h_S07_consuming_order() {
    begin();
    order(any_sel().into_interval_iter());
    reach("consuming order");
}

pub fn h_S07_provided() {
    begin();
    let s = any_sel();
    provided(|| s.interval_iter(), s.interval_iter(), true);
}
pub fn h_S07_provided_consuming() {
    begin();
    let s = any_sel();
    provided(|| s.clone().into_interval_iter(), s.interval_iter(), true);
}

// ---- S08 -------------------------------------------------------------------------
/// Points come in order from both ends, and the witness comes out exactly when
/// it is a member.
fn points<I: DoubleEndedIterator<Item = Fin>>(mut it: I, p: &Fin, m: bool) {
    let mut seen = false;
    let mut front: Option<Fin> = None;
    let mut back: Option<Fin> = None;
    loop {
        let f = any_bool();
        let x = if f { it.next() } else { it.next_back() };
        let Some(x) = x else { break };
        if let Some(q) = &front {
            check(*q < x, "points come after the ones taken from the front");
        }
        if let Some(q) = &back {
            check(x < *q, "points come before the ones taken from the back");
        }
        if x == *p {
            seen = true;
        }
        if f {
            front = Some(x);
        } else {
            back = Some(x);
        }
    }
    check(seen == m, "every member and nothing else is yielded");
    check(it.next().is_none() && it.next_back().is_none(), "nothing follows the last point");
}
pub fn h_S08_iter() {
    let p = begin();
    let s = any_sel();
    let m = sel_has(&s, &p);
    points(s.iter(), &p, m);
    reach("iter");
}
pub fn h_S08_by_ref() {
    let p = begin();
    let s = any_sel();
    let m = sel_has(&s, &p);
    points((&s).into_iter(), &p, m);
    reach("by ref");
}
pub fn h_S08_into_iter() {
    let p = begin();
    let s = any_sel();
    let m = sel_has(&s, &p);
    points(s.into_iter(), &p, m);
    reach("into iter");
}
pub fn h_S08_provided() {
    begin();
    let s = any_sel();
    provided(|| s.iter(), s.iter(), false);
}
pub fn h_S08_provided_consuming() {
    begin();
    let s = any_sel();
    provided(|| s.clone().into_iter(), s.iter(), false);
}
