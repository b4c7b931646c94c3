//! X01: how far operations step through the points of an interval. The only
//! way from one value of a discrete type to another is by single steps, so code
//! that goes a bounded number of steps away from the values it was given cannot
//! enumerate the points between them.
use crate::interval::*;
use crate::raw::*;
use crate::rt::*;
use crate::selection::*;
use normalize_interval::normalize::Normalize;
use normalize_interval::{Bound, Interval};
use std::ops::{Range, RangeFrom, RangeFull, RangeTo, RangeToInclusive};

fn count() {
    discrete();
    count_steps();
}
pub fn h_X01_normalize() {
    count();
    let mut r: FRaw = any_loose();
    if any_bool() {
        r.normalize();
    } else {
        r.denormalize();
    }
    reach("normalize");
}
pub fn h_X01_interval_make() {
    count();
    let (a, b): (Fin, Fin) = (any_tok(), any_tok());
    let _: Int = match any_below(15) {
        0 => {
            let (l, u): (Bound<Fin>, Bound<Fin>) = (any_bound(), any_bound());
            Interval::new(l, u)
        }
        1 => Interval::open(a, b),
        2 => Interval::left_open(a, b),
        3 => Interval::right_open(a, b),
        4 => Interval::closed(a, b),
        5 => Interval::unbounded_from(a),
        6 => Interval::unbounded_to(a),
        7 => Interval::unbounded_up_from(a),
        8 => Interval::unbounded_up_to(a),
        9 => Interval::full(),
        10 => Interval::from(a),
        11 => Interval::from(Range { start: a, end: b }),
        12 => match any_below(3) {
            0 => Interval::from(RangeFrom { start: a }),
            1 => Interval::from(RangeTo { end: a }),
            _ => Interval::from(RangeToInclusive { end: a }),
        },
        13 => Interval::from(RangeFull),
        _ => {
            let r: FRaw = any_loose();
            Interval::from(r)
        }
    };
    reach("make");
}
pub fn h_X01_interval_ask() {
    count();
    let p: Fin = any_tok();
    let i = any_interval();
    match any_below(8) {
        0 => drop(i.contains(&p)),
        1 => drop((i.is_empty(), i.is_degenerate(), i.is_proper())),
        2 => drop((i.is_open(), i.is_left_open(), i.is_right_open(), i.is_half_open())),
        3 => drop((i.is_closed(), i.is_left_closed(), i.is_right_closed(), i.is_half_closed())),
        4 => drop((i.is_bounded(), i.is_left_bounded(), i.is_right_bounded(), i.is_half_bounded())),
        5 => drop((i.lower_bound(), i.upper_bound())),
        6 => drop((i.infimum(), i.supremum())),
        _ => drop(i.into_non_empty()),
    }
    reach("ask");
}
pub fn h_X01_interval_combine() {
    count();
    let (a, b) = (any_interval(), any_interval());
    match any_below(9) {
        0 => drop(a.complement().next()),
        1 => drop(a.union(&b).count()),
        2 => drop(a.minus(&b).count()),
        3 => drop(a.intersect(&b)),
        4 => drop(a.intersects(&b)),
        5 => drop(a.is_adjacent_to(&b)),
        6 => drop(a.enclose(&b)),
        7 => drop(a.closure()),
        _ => drop(a == b),
    }
    reach("combine");
}
/// One step of the iteration over points.
pub fn h_X01_next() {
    count();
    let i = any_interval();
    let mut it = i.iter();
    let _ = if any_bool() { it.next() } else { it.next_back() };
    reach("next");
}
pub fn h_X01_selection_ask() {
    let p = begin();
    count_steps();
    let s = any_sel();
    match any_below(6) {
        0 => drop(s.contains(&p)),
        1 => drop((s.is_empty(), s.is_full())),
        2 => drop((s.lower_bound(), s.upper_bound())),
        3 => drop((s.is_bounded(), s.is_left_bounded(), s.is_right_bounded(), s.is_half_bounded())),
        4 => drop((s.infimum(), s.supremum())),
        _ => drop((s.enclose(), s.closure())),
    }
    reach("ask");
}
pub fn h_X01_selection_complement() {
    begin();
    count_steps();
    drop(any_sel().complement());
    reach("complement");
}
pub fn h_X01_selection_union() {
    begin();
    count_steps();
    let (a, b) = (any_sel(), any_sel());
    drop(a.union(&b));
    reach("union");
}
pub fn h_X01_selection_minus() {
    begin();
    count_steps();
    let (a, b) = (any_sel(), any_sel());
    drop(a.minus(&b));
    reach("minus");
}
pub fn h_X01_selection_intersect() {
    begin();
    count_steps();
    let (a, b) = (any_sel(), any_sel());
    if any_bool() {
        drop(a.intersect(&b));
    } else {
        drop(a.intersects(&b));
    }
    reach("intersect");
}
pub fn h_X01_selection_equal() {
    count();
    let (a, b): (Sel, Sel) = (wrap(set_named::<FTree>(any_below(3))), wrap(set_named::<FTree>(any_below(3))));
    drop(a == b);
    reach("equal");
}
pub fn h_X01_selection_change() {
    begin();
    count_steps();
    let mut s = any_sel();
    let i = any_interval();
    match any_below(3) {
        0 => s.union_in_place(i),
        1 => s.minus_in_place(i),
        _ => s.intersect_in_place(i),
    }
    reach("change");
}
pub fn h_X01_selection_collect() {
    let p = begin();
    count_steps();
    let (mut any, mut ended) = (false, false);
    match any_below(4) {
        0 => drop(Ints { p: &p, any: &mut any, ended: &mut ended }.collect::<Sel>()),
        1 => drop(Points { p: &p, any: &mut any, ended: &mut ended }.collect::<Sel>()),
        2 => any_sel().extend(Ints { p: &p, any: &mut any, ended: &mut ended }),
        _ => drop(Sel::from(any_interval())),
    }
    reach("collect");
}
pub fn h_X01_selection_pieces() {
    begin();
    count_steps();
    let s = any_sel();
    if any_bool() {
        let mut it = s.interval_iter();
        while (if any_bool() { it.next() } else { it.next_back() }).is_some() {}
    } else {
        let mut it = s.into_interval_iter();
        while (if any_bool() { it.next() } else { it.next_back() }).is_some() {}
    }
    reach("pieces");
}
/// One step of the iteration over points.
pub fn h_X01_selection_next() {
    begin();
    count_steps();
    let s = any_sel();
    if any_bool() {
        let mut it = s.iter();
        let _ = if any_bool() { it.next() } else { it.next_back() };
    } else {
        let mut it = s.into_iter();
        let _ = if any_bool() { it.next() } else { it.next_back() };
    }
    reach("next");
}
