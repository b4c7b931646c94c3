//! R: raw intervals and bounds.
use crate::rt::*;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::Bound;
use Bound::*;

/// A well-formed raw interval: proper variants have lower < upper.
pub fn any_raw<T: Ord>() -> RawInterval<T> {
    raw_kind(any_below(11))
}
pub fn raw_kind<T: Ord>(k: usize) -> RawInterval<T> {
    use RawInterval::*;
    match k {
        2..=5 => {
            let a = any_tok();
            let b = any_over(&a);
            match k {
                2 => Open(a, b),
                3 => LeftOpen(a, b),
                4 => RightOpen(a, b),
                _ => Closed(a, b),
            }
        }
        _ => loose_kind(k),
    }
}
/// Any value of the type, inverted ones included.
pub fn any_loose<T: Ord>() -> RawInterval<T> {
    loose_kind(any_below(11))
}
pub fn loose_kind<T: Ord>(k: usize) -> RawInterval<T> {
    use RawInterval::*;
    match k {
        0 => Empty,
        1 => Point(any_tok()),
        2 => Open(any_tok(), any_tok()),
        3 => LeftOpen(any_tok(), any_tok()),
        4 => RightOpen(any_tok(), any_tok()),
        5 => Closed(any_tok(), any_tok()),
        6 => UpTo(any_tok()),
        7 => UpFrom(any_tok()),
        8 => To(any_tok()),
        9 => From(any_tok()),
        _ => Full,
    }
}
pub fn raw_wf<T: Ord>(r: &RawInterval<T>) -> bool {
    use RawInterval::*;
    match r {
        Open(a, b) | LeftOpen(a, b) | RightOpen(a, b) | Closed(a, b) => a < b,
        _ => true,
    }
}
/// Membership by the meaning of the variants.
pub fn raw_has<T: Ord>(r: &RawInterval<T>, p: &T) -> bool {
    use RawInterval::*;
    match r {
        Empty => false,
        Point(a) => p == a,
        Open(a, b) => a < p && p < b,
        LeftOpen(a, b) => a < p && p <= b,
        RightOpen(a, b) => a <= p && p < b,
        Closed(a, b) => a <= p && p <= b,
        UpTo(a) => p < a,
        UpFrom(a) => a < p,
        To(a) => p <= a,
        From(a) => a <= p,
        Full => true,
    }
}
pub fn raw_empty<T>(r: &RawInterval<T>) -> bool {
    matches!(r, RawInterval::Empty)
}
pub fn any_bound<T>() -> Bound<T> {
    match any_below(3) {
        0 => Include(any_tok()),
        1 => Exclude(any_tok()),
        _ => Infinite,
    }
}
/// Points admitted by a lower bound / an upper bound.
pub fn lb_has<T: Ord>(b: &Bound<T>, p: &T) -> bool {
    match b {
        Include(v) => v <= p,
        Exclude(v) => v < p,
        Infinite => true,
    }
}
pub fn ub_has<T: Ord>(b: &Bound<T>, p: &T) -> bool {
    match b {
        Include(v) => p <= v,
        Exclude(v) => p < v,
        Infinite => true,
    }
}
pub fn bound_same<T: Ord>(a: &Bound<T>, b: &Bound<T>) -> bool {
    match (a, b) {
        (Include(x), Include(y)) | (Exclude(x), Exclude(y)) => x == y,
        (Infinite, Infinite) => true,
        _ => false,
    }
}
pub fn raw_same<T: Ord>(a: &RawInterval<T>, b: &RawInterval<T>) -> bool {
    use RawInterval::*;
    match (a, b) {
        (Empty, Empty) | (Full, Full) => true,
        (Point(x), Point(y)) | (UpTo(x), UpTo(y)) | (UpFrom(x), UpFrom(y)) | (To(x), To(y)) | (From(x), From(y)) => x == y,
        (Open(x, u), Open(y, v))
        | (LeftOpen(x, u), LeftOpen(y, v))
        | (RightOpen(x, u), RightOpen(y, v))
        | (Closed(x, u), Closed(y, v)) => x == y && u == v,
        _ => false,
    }
}
/// The bounds of a well-formed interval by the meaning of the variants.
pub fn spec_lb<T: Clone>(r: &RawInterval<T>) -> Option<Bound<T>> {
    use RawInterval::*;
    Some(match r {
        Empty => return None,
        Point(a) | RightOpen(a, _) | Closed(a, _) | From(a) => Include(a.clone()),
        Open(a, _) | LeftOpen(a, _) | UpFrom(a) => Exclude(a.clone()),
        UpTo(_) | To(_) | Full => Infinite,
    })
}
pub fn spec_ub<T: Clone>(r: &RawInterval<T>) -> Option<Bound<T>> {
    use RawInterval::*;
    Some(match r {
        Empty => return None,
        Point(a) | LeftOpen(_, a) | Closed(_, a) | To(a) => Include(a.clone()),
        Open(_, a) | RightOpen(_, a) | UpTo(a) => Exclude(a.clone()),
        UpFrom(_) | From(_) | Full => Infinite,
    })
}
fn opt_bound_same<T: Ord>(a: &Option<Bound<T>>, b: &Option<Bound<T>>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => bound_same(a, b),
        _ => false,
    }
}
/// Do the points admitted by upper bound `u` all lie below those admitted by
/// lower bound `l`?
pub fn apart<T: Ord>(u: &Bound<T>, l: &Bound<T>) -> bool {
    match (u, l) {
        (Include(x), Include(y)) => x < y,
        (Include(x), Exclude(y)) | (Exclude(x), Include(y)) | (Exclude(x), Exclude(y)) => x <= y,
        _ => false,
    }
}
/// Does every point of `a` lie strictly below every point of `b`?
pub fn before<T: Ord + Clone>(a: &RawInterval<T>, b: &RawInterval<T>) -> bool {
    match (spec_ub(a), spec_lb(b)) {
        (Some(u), Some(l)) => apart(&u, &l),
        _ => false,
    }
}

// ---- R01 ---------------------------------------------------------------------
pub fn h_R01_new() {
    let p: Tok = any_tok();
    let l: Bound<Tok> = any_bound();
    let u: Bound<Tok> = any_bound();
    // equal bounds: the single point as soon as one side includes it
    let touch = match (&l, &u) {
        (Include(a), Include(b)) | (Include(a), Exclude(b)) | (Exclude(a), Include(b)) => a == b,
        _ => false,
    };
    let expect = if touch {
        match &l {
            Include(a) | Exclude(a) => p == *a,
            Infinite => true,
        }
    } else {
        lb_has(&l, &p) && ub_has(&u, &p)
    };
    let r = RawInterval::new(l.clone(), u.clone());
    check(raw_wf(&r), "constructed interval has lower below upper");
    check(raw_has(&r, &p) == expect, "constructed interval has exactly the requested points");
    check(r.contains(&p) == expect, "constructed interval reports exactly the requested points");
    let inverted = match (&l, &u) {
        (Include(a), Include(b)) | (Include(a), Exclude(b)) | (Exclude(a), Include(b)) => b < a,
        (Exclude(a), Exclude(b)) => b <= a,
        _ => false,
    };
    check(raw_empty(&r) == inverted, "only inverted bounds give the empty interval");
    reach("new");
}
pub fn h_R01_pairs() {
    let p: Tok = any_tok();
    let a: Tok = any_tok();
    let b: Tok = any_tok();
    let k = any_below(4);
    let (r, e) = match k {
        0 => (RawInterval::open(a.clone(), b.clone()), a < p && p < b),
        1 => (RawInterval::left_open(a.clone(), b.clone()), if a == b { p == a } else { a < p && p <= b }),
        2 => (RawInterval::right_open(a.clone(), b.clone()), if a == b { p == a } else { a <= p && p < b }),
        _ => (RawInterval::closed(a.clone(), b.clone()), a <= p && p <= b),
    };
    check(raw_wf(&r), "constructed interval has lower below upper");
    check(raw_has(&r, &p) == e, "constructed interval has exactly the requested points");
    check(raw_empty(&r) == (b < a || (a == b && k == 0)), "only inverted bounds give the empty interval");
    reach("pairs");
}
// ---- R02 ---------------------------------------------------------------------
pub fn h_R02_queries() {
    let p: Tok = any_tok();
    let r: RawInterval<Tok> = any_raw();
    let m = raw_has(&r, &p);
    check(r.contains(&p) == m, "membership");
    let l = r.lower_bound();
    let u = r.upper_bound();
    check(opt_bound_same(&l, &spec_lb(&r)), "lower bound");
    check(opt_bound_same(&u, &spec_ub(&r)), "upper bound");
    check(raw_empty(&r) == l.is_none() && l.is_none() == u.is_none(), "bounds are absent exactly for the empty interval");
    let by_bounds = match (&l, &u) {
        (Some(l), Some(u)) => lb_has(l, &p) && ub_has(u, &p),
        _ => false,
    };
    check(by_bounds == m, "membership is what the bounds say");
    let val = |b: &Option<Bound<Tok>>| match b {
        Some(Include(v)) | Some(Exclude(v)) => Some(v.clone()),
        _ => None,
    };
    check(r.infimum() == val(&l), "infimum");
    check(r.supremum() == val(&u), "supremum");
    check(r.is_empty() == raw_empty(&r), "emptiness");
    check(r.is_full() == matches!(r, RawInterval::Full), "fullness");
    check(raw_has(&r, &p) == m, "input unchanged");
    reach("queries");
}
pub fn h_R02_loose() {
    let p: Tok = any_tok();
    let r: RawInterval<Tok> = any_loose();
    check(r.contains(&p) == raw_has(&r, &p), "membership of an unordered value");
    reach("loose");
}
// ---- pieces --------------------------------------------------------------------
/// Checks shared by operations that return pieces; returns membership and count.
pub fn pieces<I: Iterator<Item = RawInterval<Tok>>>(mut it: I, p: &Tok, ordered: bool) -> (bool, usize) {
    let mut n = 0;
    let mut m = false;
    let mut prev: Option<RawInterval<Tok>> = None;
    while let Some(i) = it.next() {
        check(!raw_empty(&i), "no piece is empty");
        check(raw_wf(&i), "pieces are well formed");
        m = m || raw_has(&i, p);
        if ordered {
            if let Some(q) = &prev {
                check(before(q, &i), "pieces are disjoint and ascending");
            }
        }
        prev = Some(i);
        n += 1;
    }
    (m, n)
}
// ---- R03 ---------------------------------------------------------------------
pub fn h_R03_complement() {
    let p: Tok = any_tok();
    let r: RawInterval<Tok> = any_raw();
    let m = raw_has(&r, &p);
    let (c, _) = pieces(r.complement(), &p, true);
    check(c == !m, "complement has exactly the missing points");
    check(raw_has(&r, &p) == m, "input unchanged");
    reach("complement");
}
// ---- R04 ---------------------------------------------------------------------
pub fn h_R04_intersect() {
    let p: Tok = any_tok();
    let a: RawInterval<Tok> = any_raw();
    let b: RawInterval<Tok> = any_raw();
    let e = raw_has(&a, &p) && raw_has(&b, &p);
    let r = a.intersect(&b);
    check(raw_wf(&r), "intersection is well formed");
    check(raw_has(&r, &p) == e, "intersection has exactly the common points");
    check(a.intersects(&b) == !raw_empty(&r), "intersects query agrees with the intersection");
    reach("intersect");
}
// ---- R05 ---------------------------------------------------------------------
fn touches(a: &RawInterval<Tok>, b: &RawInterval<Tok>) -> bool {
    match (spec_ub(a), spec_lb(b)) {
        (Some(Include(x)), Some(Include(y))) | (Some(Include(x)), Some(Exclude(y))) | (Some(Exclude(x)), Some(Include(y))) => x == y,
        _ => false,
    }
}
/// The bounds of the two overlap (over a dense order they share a point).
fn overlaps(a: &RawInterval<Tok>, b: &RawInterval<Tok>) -> bool {
    !raw_empty(a) && !raw_empty(b) && !before(a, b) && !before(b, a)
}
pub fn h_R05_union() {
    let p: Tok = any_tok();
    let a: RawInterval<Tok> = any_raw();
    let b: RawInterval<Tok> = any_raw();
    let e = raw_has(&a, &p) || raw_has(&b, &p);
    let (m, n) = pieces(a.union(&b), &p, false);
    check(m == e, "union has exactly the points of either");
    let (ea, eb) = (raw_empty(&a), raw_empty(&b));
    let adj = touches(&a, &b) || touches(&b, &a);
    check(a.is_adjacent_to(&b) == adj, "adjacency is a shared endpoint that one side includes");
    let want = if ea && eb {
        0
    } else if ea || eb || adj || overlaps(&a, &b) {
        1
    } else {
        2
    };
    check(n == want, "touching or overlapping intervals merge, others do not");
    reach("union");
}
// ---- R06 ---------------------------------------------------------------------
pub fn h_R06_minus() {
    let p: Tok = any_tok();
    let a: RawInterval<Tok> = any_raw();
    let b: RawInterval<Tok> = any_raw();
    let e = raw_has(&a, &p) && !raw_has(&b, &p);
    let (m, _) = pieces(a.minus(&b), &p, true);
    check(m == e, "difference has exactly the remaining points");
    reach("minus");
}
// ---- R07 ---------------------------------------------------------------------
pub fn h_R07_enclose() {
    let p: Tok = any_tok();
    let a: RawInterval<Tok> = any_raw();
    let b: RawInterval<Tok> = any_raw();
    let above = |r: &RawInterval<Tok>| match spec_lb(r) {
        Some(l) => lb_has(&l, &p),
        None => false,
    };
    let below = |r: &RawInterval<Tok>| match spec_ub(r) {
        Some(u) => ub_has(&u, &p),
        None => false,
    };
    let e = (above(&a) || above(&b)) && (below(&a) || below(&b));
    let r = a.enclose(&b);
    check(raw_wf(&r), "enclosure is well formed");
    check(raw_has(&r, &p) == e, "enclosure covers both inputs and the gap between them");
    reach("enclose");
}
pub fn h_R07_closure() {
    let a: RawInterval<Tok> = any_raw();
    let r = a.closure();
    let close = |b: Option<Bound<Tok>>| match b {
        Some(Exclude(v)) => Some(Include(v)),
        b => b,
    };
    check(raw_wf(&r), "closure is well formed");
    check(opt_bound_same(&spec_lb(&r), &close(spec_lb(&a))), "closure includes its finite lower bound");
    check(opt_bound_same(&spec_ub(&r), &close(spec_ub(&a))), "closure includes its finite upper bound");
    reach("closure");
}
// ---- R08 ---------------------------------------------------------------------
/// An arbitrary sequence of well-formed intervals that remembers what the
/// witness saw so far.
struct Feed<'a> {
    p: &'a Tok,
    any: &'a mut bool,
    all: &'a mut bool,
    lo: &'a mut bool,
    hi: &'a mut bool,
    some: &'a mut bool,
    ended: &'a mut bool,
}
impl Iterator for Feed<'_> {
    type Item = RawInterval<Tok>;
    fn next(&mut self) -> Option<RawInterval<Tok>> {
        if *self.ended || any_bool() {
            *self.ended = true;
            return None;
        }
        let r: RawInterval<Tok> = any_raw();
        let m = raw_has(&r, self.p);
        *self.any = *self.any || m;
        *self.all = *self.all && m;
        if let Some(l) = spec_lb(&r) {
            *self.lo = *self.lo || lb_has(&l, self.p);
            *self.some = true;
        }
        if let Some(u) = spec_ub(&r) {
            *self.hi = *self.hi || ub_has(&u, self.p);
        }
        Some(r)
    }
}
macro_rules! feed {
    ($p:ident, $any:ident, $all:ident, $lo:ident, $hi:ident, $some:ident, $ended:ident) => {
        Feed { p: &$p, any: &mut $any, all: &mut $all, lo: &mut $lo, hi: &mut $hi, some: &mut $some, ended: &mut $ended }
    };
}
/// What the code did not ask for is part of the sequence all the same.
macro_rules! rest {
    ($($x:ident),*) => {
        while feed!($($x),*).next().is_some() {}
    };
}
pub fn h_R08_enclose_all() {
    let p: Tok = any_tok();
    let (mut any, mut all, mut lo, mut hi, mut some, mut ended) = (false, true, false, false, false, false);
    let r = RawInterval::enclose_all(feed!(p, any, all, lo, hi, some, ended));
    rest!(p, any, all, lo, hi, some, ended);
    check(raw_wf(&r), "bulk enclosure is well formed");
    check(raw_has(&r, &p) == (lo && hi), "bulk enclosure covers every interval and the gaps between them");
    check(raw_empty(&r) == !some, "bulk enclosure of nothing is empty");
    reach("enclose_all");
}
pub fn h_R08_intersect_all() {
    let p: Tok = any_tok();
    let (mut any, mut all, mut lo, mut hi, mut some, mut ended) = (false, true, false, false, false, false);
    let r = RawInterval::intersect_all(feed!(p, any, all, lo, hi, some, ended));
    rest!(p, any, all, lo, hi, some, ended);
    check(raw_wf(&r), "bulk intersection is well formed");
    check(raw_has(&r, &p) == all, "bulk intersection has exactly the points common to all");
    reach("intersect_all");
}
// ---- R09 ---------------------------------------------------------------------
pub fn h_R09_union_all() {
    let p: Tok = any_tok();
    set_witness(&p);
    let (mut any, mut all, mut lo, mut hi, mut some, mut ended) = (false, true, false, false, false, false);
    let mut got = false;
    let mut it = RawInterval::union_all(feed!(p, any, all, lo, hi, some, ended));
    while let Some(x) = it.next() {
        check(raw_wf(&x), "every piece is well formed");
        check(!raw_empty(&x), "no piece is empty");
        got = got || raw_has(&x, &p);
    }
    drop(it);
    rest!(p, any, all, lo, hi, some, ended);
    check(got == any, "the pieces have exactly the points of the sequence");
    reach("union_all");
}
// ---- R11 ---------------------------------------------------------------------
pub fn h_R11_combine() {
    let p: Tok = any_tok();
    let a: Bound<Tok> = any_bound();
    let b: Bound<Tok> = any_bound();
    let (r, s, x, y, and) = match any_below(4) {
        0 => (a.least_intersect(&b), b.least_intersect(&a), ub_has(&a, &p), ub_has(&b, &p), true),
        1 => (a.greatest_union(&b), b.greatest_union(&a), ub_has(&a, &p), ub_has(&b, &p), false),
        2 => (a.greatest_intersect(&b), b.greatest_intersect(&a), lb_has(&a, &p), lb_has(&b, &p), true),
        _ => (a.least_union(&b), b.least_union(&a), lb_has(&a, &p), lb_has(&b, &p), false),
    };
    check(bound_same(&r, &a) || bound_same(&r, &b), "result is one of the two bounds");
    check(bound_same(&r, &s), "argument order does not matter");
    reach("combine");
    let _ = (x, y, and);
}
pub fn h_R11_points() {
    let p: Tok = any_tok();
    let a: Bound<Tok> = any_bound();
    let b: Bound<Tok> = any_bound();
    match any_below(4) {
        0 => check(ub_has(&a.least_intersect(&b), &p) == (ub_has(&a, &p) && ub_has(&b, &p)), "least_intersect admits the points of both"),
        1 => check(ub_has(&a.greatest_union(&b), &p) == (ub_has(&a, &p) || ub_has(&b, &p)), "greatest_union admits the points of either"),
        2 => check(lb_has(&a.greatest_intersect(&b), &p) == (lb_has(&a, &p) && lb_has(&b, &p)), "greatest_intersect admits the points of both"),
        _ => check(lb_has(&a.least_union(&b), &p) == (lb_has(&a, &p) || lb_has(&b, &p)), "least_union admits the points of either"),
    }
    reach("points");
}
// ---- R12 ---------------------------------------------------------------------
pub fn h_R12_queries() {
    let a: Bound<Tok> = any_bound();
    let d: Tok = any_tok();
    let v = match &a {
        Include(v) | Exclude(v) => Some(v.clone()),
        Infinite => None,
    };
    check(a.is_finite() == v.is_some(), "finite exactly with a value");
    check(a.is_inclusive() == matches!(a, Include(_)), "inclusive query");
    check(a.is_exclusive() == matches!(a, Exclude(_)), "exclusive query");
    check(a.as_ref().cloned() == v, "shared access exposes the value");
    let mut c = a.clone();
    check(c.as_mut().map(|x| x.clone()) == v, "mutable access exposes the value");
    let e = match &v {
        Some(x) => x.clone(),
        None => d.clone(),
    };
    check(a.clone().unwrap_or(d.clone()) == e, "fallback value");
    check(a.clone().unwrap_or_else(|| d.clone()) == e, "computed fallback value");
    if let Some(x) = &v {
        check(a.clone().unwrap() == *x, "unwrapped value");
    }
    reach("queries");
}
pub fn h_R12_map() {
    let a: Bound<Tok> = any_bound();
    let to: Tok = any_tok();
    let d: Tok = any_tok();
    let old = a.clone();
    let mut arg: Option<Tok> = None;
    let m = a.clone().map(|x| {
        arg = Some(x);
        to.clone()
    });
    let kind = |x: &Bound<Tok>| match x {
        Include(_) => 0,
        Exclude(_) => 1,
        Infinite => 2,
    };
    let val = |x: &Bound<Tok>| match x {
        Include(v) | Exclude(v) => Some(v.clone()),
        Infinite => None,
    };
    check(kind(&m) == kind(&old), "mapping keeps the kind");
    check(arg == val(&old), "mapping applies the function to the stored value");
    check(val(&m) == if val(&old).is_some() { Some(to.clone()) } else { None }, "mapping stores the function's result");
    let t = Bound::transfer(&a, to.clone());
    check(bound_same(&t, &m), "transferring keeps the kind and takes the new value");
    let mo = a.clone().map_or(d.clone(), |x| {
        check(Some(x) == val(&old), "map_or applies the function to the stored value");
        to.clone()
    });
    let e = if val(&old).is_some() { to.clone() } else { d.clone() };
    check(mo == e, "map_or");
    let me = a.clone().map_or_else(|| d.clone(), |_| to.clone());
    check(me == e, "map_or_else");
    check(bound_same(&Bound::from(d.clone()), &Include(d.clone())), "a value converts to the inclusive bound");
    let u = Bound::<bool>::default();
    check(matches!(u, Include(false)), "the default bound is inclusive at the default value");
    reach("map");
}
