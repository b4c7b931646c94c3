//! N and I: normal forms and intervals over a discrete element type that has a
//! least and a greatest value.
use crate::raw::*;
use crate::rt::*;
use normalize_interval::normalize::Normalize;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::{Bound, Interval};
use std::ops::{Range, RangeFrom, RangeFull, RangeTo, RangeToInclusive};
use Bound::*;

pub type FRaw = RawInterval<Fin>;
pub type Int = Interval<Fin>;

/// The unique form: nothing, one value, or lower below upper, both included.
pub fn raw_norm<T: Ord>(r: &RawInterval<T>) -> bool {
    match r {
        RawInterval::Empty | RawInterval::Point(_) => true,
        RawInterval::Closed(l, u) => l < u,
        _ => false,
    }
}
pub fn any_norm<T>() -> RawInterval<T> {
    match any_below(3) {
        0 => RawInterval::Empty,
        1 => RawInterval::Point(any_tok()),
        _ => {
            let l = any_tok();
            let u = any_over(&l);
            RawInterval::Closed(l, u)
        }
    }
}
pub fn any_interval() -> Int {
    wrap(any_norm::<Fin>())
}
pub fn raw_of(i: &Int) -> &FRaw {
    peel(i)
}
pub fn int_has(i: &Int, p: &Fin) -> bool {
    raw_has(raw_of(i), p)
}
/// Least and greatest member.
pub fn ends(r: &FRaw) -> Option<(Fin, Fin)> {
    match r {
        RawInterval::Point(a) => Some((a.clone(), a.clone())),
        RawInterval::Closed(a, b) => Some((a.clone(), b.clone())),
        _ => None,
    }
}
fn least() -> Fin {
    <Fin as normalize_interval::normalize::Finite>::MINIMUM
}
fn greatest() -> Fin {
    <Fin as normalize_interval::normalize::Finite>::MAXIMUM
}

// ---- N01, N02 ------------------------------------------------------------------
pub fn h_N01_normalize() {
    discrete();
    let p: Fin = any_tok();
    let r: FRaw = any_loose();
    let m = raw_has(&r, &p);
    let mut n = r.clone();
    n.normalize();
    check(raw_norm(&n), "normalized intervals are empty, a point, or closed with lower below upper");
    check(raw_has(&n, &p) == m, "normalizing keeps exactly the same points");
    check(raw_same(&r.normalized(), &n), "normalizing in place and by value agree");
    reach("normalize");
}
pub fn h_N01_again() {
    discrete();
    let r: FRaw = any_norm();
    check(raw_same(&r.clone().normalized(), &r), "normalized intervals normalize to themselves");
    reach("again");
}
pub fn h_N02_broadest() {
    discrete();
    let p: Fin = any_tok();
    let r: FRaw = any_norm();
    let m = raw_has(&r, &p);
    let mut d = r.clone();
    d.denormalize();
    check(crate::contract::raw_denormal(&d), "each end of a denormalized interval is exclusive or unbounded");
    check(raw_wf(&d), "denormalized intervals are well formed");
    check(raw_has(&d, &p) == m, "denormalizing keeps exactly the same points");
    check(raw_same(&r.clone().denormalized(), &d), "denormalizing in place and by value agree");
    check(raw_same(&d.normalized(), &r), "normalizing undoes denormalizing");
    reach("broadest");
}
pub fn h_N02_any() {
    discrete();
    let p: Fin = any_tok();
    let r: FRaw = any_raw();
    let m = raw_has(&r, &p);
    let d = r.clone().denormalized();
    check(raw_wf(&d), "denormalized intervals are well formed");
    check(raw_has(&d, &p) == m, "denormalizing keeps exactly the same points");
    check(raw_same(&d.normalized(), &r.normalized()), "normalizing after denormalizing changes nothing");
    reach("any");
}

// ---- I01 -----------------------------------------------------------------------
fn made(i: &Int, p: &Fin, e: bool) {
    check(raw_norm(raw_of(i)), "interval is in normal form");
    check(int_has(i, p) == e, "interval has exactly the requested points");
}
pub fn h_I01_new() {
    discrete();
    let p: Fin = any_tok();
    let l: Bound<Fin> = any_bound();
    let u: Bound<Fin> = any_bound();
    let e = match (&l, &u) {
        // equal bounds: the single point as soon as one side includes it
        (Include(a), Include(b)) | (Include(a), Exclude(b)) | (Exclude(a), Include(b)) if a == b => p == *a,
        _ => lb_has(&l, &p) && ub_has(&u, &p),
    };
    made(&Interval::new(l, u), &p, e);
    reach("new");
}
pub fn h_I01_pairs() {
    discrete();
    let p: Fin = any_tok();
    let a: Fin = any_tok();
    let b: Fin = any_tok();
    let (x, y) = (a.clone(), b.clone());
    let (i, e) = match any_below(6) {
        0 => (Interval::open(x, y), a < p && p < b),
        1 => (Interval::left_open(x, y), if a == b { p == a } else { a < p && p <= b }),
        2 => (Interval::right_open(x, y), if a == b { p == a } else { a <= p && p < b }),
        3 => (Interval::closed(x, y), a <= p && p <= b),
        4 => (Interval::left_closed(x, y), if a == b { p == a } else { a <= p && p < b }),
        _ => (Interval::right_closed(x, y), if a == b { p == a } else { a < p && p <= b }),
    };
    made(&i, &p, e);
    reach("pairs");
}
pub fn h_I01_rays() {
    discrete();
    let p: Fin = any_tok();
    let a: Fin = any_tok();
    let x = a.clone();
    let (i, e): (Int, bool) = match any_below(9) {
        0 => (Interval::empty(), false),
        1 => (Interval::point(x), p == a),
        2 => (Interval::unbounded_from(x), a <= p),
        3 => (Interval::unbounded_to(x), p <= a),
        4 => (Interval::unbounded_up_from(x), a < p),
        5 => (Interval::unbounded_up_to(x), p < a),
        6 => (Interval::full(), true),
        7 => (Interval::default(), false),
        _ => (Interval::from(x), p == a),
    };
    made(&i, &p, e);
    reach("rays");
}
pub fn h_I01_ranges() {
    discrete();
    let p: Fin = any_tok();
    let a: Fin = any_tok();
    let b: Fin = any_tok();
    let (x, y) = (a.clone(), b.clone());
    let (i, e): (Int, bool) = match any_below(5) {
        0 => (Interval::from(Range { start: x, end: y }), a <= p && p < b),
        1 => (Interval::from(RangeFrom { start: x }), a <= p),
        2 => (Interval::from(RangeTo { end: y }), p < b),
        3 => (Interval::from(RangeToInclusive { end: y }), p <= b),
        _ => (Interval::from(RangeFull), true),
    };
    made(&i, &p, e);
    reach("ranges");
}
pub fn h_I01_raw() {
    discrete();
    let p: Fin = any_tok();
    let r: FRaw = any_loose();
    let e = raw_has(&r, &p);
    made(&Interval::from(r), &p, e);
    reach("raw");
}
pub fn h_I05_non_empty() {
    discrete();
    let p: Fin = any_tok();
    let i = any_interval();
    let m = int_has(&i, &p);
    let none = raw_empty(raw_of(&i));
    match i.into_non_empty() {
        Some(j) => {
            check(!none, "only intervals with points are non-empty");
            made(&j, &p, m);
        }
        None => check(none, "intervals with points are non-empty"),
    }
    reach("non-empty");
}

// ---- I02 -----------------------------------------------------------------------
fn all_of<I: Iterator<Item = Int>>(mut it: I, p: &Fin) -> bool {
    let mut m = false;
    while let Some(i) = it.next() {
        check(raw_norm(raw_of(&i)), "pieces are in normal form");
        m = m || int_has(&i, p);
    }
    m
}
pub fn h_I02_complement() {
    discrete();
    let p: Fin = any_tok();
    let a = any_interval();
    let m = int_has(&a, &p);
    check(all_of(a.complement(), &p) == !m, "complement has exactly the missing points");
    reach("complement");
}
pub fn h_I02_union() {
    discrete();
    let p: Fin = any_tok();
    let (a, b) = (any_interval(), any_interval());
    let (m, n) = (int_has(&a, &p), int_has(&b, &p));
    check(all_of(a.union(&b), &p) == (m || n), "union has exactly the points of both");
    reach("union");
}
pub fn h_I02_minus() {
    discrete();
    let p: Fin = any_tok();
    let (a, b) = (any_interval(), any_interval());
    let (m, n) = (int_has(&a, &p), int_has(&b, &p));
    check(all_of(a.minus(&b), &p) == (m && !n), "difference has exactly the points left");
    reach("minus");
}
pub fn h_I02_intersect() {
    discrete();
    let p: Fin = any_tok();
    let (a, b) = (any_interval(), any_interval());
    let (m, n) = (int_has(&a, &p), int_has(&b, &p));
    made(&a.intersect(&b), &p, m && n);
    let share = match (ends(raw_of(&a)), ends(raw_of(&b))) {
        (Some((a, b)), Some((c, d))) => a <= d && c <= b,
        _ => false,
    };
    check(a.intersects(&b) == share, "intersects query is true exactly when a point is shared");
    reach("intersect");
}
pub fn h_I02_enclose() {
    discrete();
    let p: Fin = any_tok();
    let (a, b) = (any_interval(), any_interval());
    let e = match (ends(raw_of(&a)), ends(raw_of(&b))) {
        (Some((a, b)), Some((c, d))) => (a <= p || c <= p) && (p <= b || p <= d),
        (Some((a, b)), None) | (None, Some((a, b))) => a <= p && p <= b,
        _ => false,
    };
    made(&a.enclose(&b), &p, e);
    reach("enclose");
}
pub fn h_I02_closure() {
    discrete();
    let p: Fin = any_tok();
    let a = any_interval();
    let m = int_has(&a, &p);
    made(&a.closure(), &p, m);
    reach("closure");
}

// ---- I03 -----------------------------------------------------------------------
/// Takes points from both ends; `rest` is what is still to come.
fn walk<I: DoubleEndedIterator<Item = Fin>>(mut it: I, mut rest: Option<(Fin, Fin)>) {
    loop {
        let front = any_bool();
        let x = if front { it.next() } else { it.next_back() };
        let Some((l, u)) = rest else {
            check(x.is_none(), "nothing follows the last point");
            if any_bool() {
                return;
            }
            continue;
        };
        let e = if front { &l } else { &u };
        match &x {
            Some(v) => check(v == e, "points come one step at a time"),
            None => check(false, "every member is yielded"),
        }
        rest = if l == u {
            None
        } else if front {
            fin_succ(&l).map(|l| (l, u))
        } else {
            fin_pred(&u).map(|u| (l, u))
        };
        reach("walk");
    }
}
pub fn h_I03_iter() {
    discrete();
    let i = any_interval();
    let rest = ends(raw_of(&i));
    walk(i.iter(), rest);
}
pub fn h_I03_into_iter() {
    discrete();
    let i = any_interval();
    let rest = ends(raw_of(&i));
    walk(i.into_iter(), rest);
}
pub fn h_I03_by_ref() {
    discrete();
    let i = any_interval();
    let rest = ends(raw_of(&i));
    walk((&i).into_iter(), rest);
}

/// What an iterator provides beyond `next` and `next_back` takes the same
/// steps: the one made by `make` is driven through it, `b`, another one over
/// the same, by hand and before it, so that what it passes is known.
pub fn provided<I, J>(make: impl FnOnce() -> I, mut b: J, to_the_end: bool)
where
    I: DoubleEndedIterator,
    J: DoubleEndedIterator<Item = I::Item>,
    I::Item: PartialEq,
{
    let back = any_bool();
    if any_bool() {
        let one = b.next();
        let two = b.next();
        let (least, most) = make().size_hint();
        check(one.is_some() || least == 0, "the size hint is no more than what is left");
        check(two.is_some() || least < 2, "the size hint is no more than what is left");
        if let Some(n) = most {
            check(one.is_none() || n > 0, "the size hint is no less than what is left");
            check(two.is_none() || n > 1, "the size hint is no less than what is left");
        }
        reach("size");
        return;
    }
    if to_the_end && any_bool() {
        let y = b.next_back();
        check(make().last() == y, "the last one is the first from the back");
        reach("last");
        return;
    }
    let skip = any_bool();
    let first = if back { b.next_back() } else { b.next() };
    let second = if back { b.next_back() } else { b.next() };
    let third = if skip { b.next() } else { None };
    let mut a = make();
    let x = match (back, skip) {
        (false, false) => a.nth(0),
        (false, true) => a.nth(1),
        (true, false) => a.nth_back(0),
        (true, true) => a.nth_back(1),
    };
    check(x == *if skip { &second } else { &first }, "skipping leads where single steps do");
    if skip {
        check(a.next() == third, "skipping goes on where single steps do");
    } else {
        check(if back { a.next_back() } else { a.next() } == second, "skipping goes on where single steps do");
    }
    check(first.is_some() || second.is_none() && third.is_none(), "nothing follows the end");
    reach("skip");
}
pub fn h_I03_provided() {
    discrete();
    let i = any_interval();
    provided(|| i.iter(), i.iter(), true);
}

// ---- I04 -----------------------------------------------------------------------
pub fn h_I04_queries() {
    discrete();
    let p: Fin = any_tok();
    let i = any_interval();
    let m = int_has(&i, &p);
    let e = ends(raw_of(&i));
    check(i.contains(&p) == m, "membership");
    check(i.is_empty() == e.is_none(), "empty exactly without members");
    let one = match &e {
        Some((a, b)) => a == b,
        None => false,
    };
    check(i.is_degenerate() == one, "degenerate exactly with one member");
    check(i.is_proper() == (e.is_some() && !one), "proper exactly with several members");
    check(i.is_bounded() && i.is_left_bounded() && i.is_right_bounded(), "always bounded on both sides");
    check(!i.is_half_bounded(), "never bounded on one side only");
    check(i.is_closed(), "always closed");
    check(i.is_left_closed() == e.is_some(), "closed on the left exactly with members");
    check(i.is_right_closed() == e.is_some(), "closed on the right exactly with members");
    check(i.is_open() == e.is_none(), "open exactly without members");
    check(!i.is_left_open() && !i.is_right_open(), "never open on one side");
    check(!i.is_half_open() && !i.is_half_closed(), "never of mixed kind");
    match (i.lower_bound(), i.upper_bound(), &e) {
        (None, None, None) => (),
        (Some(Include(l)), Some(Include(u)), Some((a, b))) => {
            check(l == *a, "lower bound is the least member");
            check(u == *b, "upper bound is the greatest member");
        }
        _ => check(false, "bounds are inclusive and absent exactly for the empty interval"),
    }
    match (i.infimum(), i.supremum(), &e) {
        (None, None, None) => (),
        (Some(l), Some(u), Some((a, b))) => {
            check(l == *a, "infimum is the least member");
            check(u == *b, "supremum is the greatest member");
        }
        _ => check(false, "extrema are absent exactly for the empty interval"),
    }
    reach("queries");
}
pub fn h_I04_full() {
    discrete();
    let i: Int = Interval::full();
    match ends(raw_of(&i)) {
        Some((a, b)) => {
            check(a == least(), "the full interval starts at the least value");
            check(b == greatest(), "the full interval ends at the greatest value");
        }
        None => check(false, "the full interval has points"),
    }
    reach("full");
}

// ---- I05 -----------------------------------------------------------------------
/// Difference as an unknown function, told apart by what it does on a pair:
/// which side it keeps depends on the witness alone.
impl std::ops::Sub for Fin {
    type Output = Fin;
    fn sub(self, o: Fin) -> Fin {
        if witness::<Fin>() == least() {
            self
        } else {
            o
        }
    }
}
pub fn h_I05_size() {
    discrete();
    let w: Fin = any_tok();
    set_witness(&w);
    let i = any_interval();
    match (i.size(), ends(raw_of(&i))) {
        (None, None) => (),
        (Some(d), Some((l, u))) => check(d == u - l, "size is the greatest less the least member"),
        (Some(_), None) => check(false, "the empty interval has no size"),
        (None, Some(_)) => check(false, "intervals with points have a size"),
    }
    reach("size");
}
pub fn h_I05_adjacent() {
    discrete();
    let (a, b) = (any_interval(), any_interval());
    let share = match (ends(raw_of(&a)), ends(raw_of(&b))) {
        (Some((a, b)), Some((c, d))) => a == d || b == c,
        _ => false,
    };
    check(a.is_adjacent_to(&b) == share, "adjacent exactly when one ends where the other starts");
    reach("adjacent");
}
