//! Summaries that stand for functions proved elsewhere: each states what it
//! requires, and replaces the result by any value that satisfies the proved
//! guarantee at the witness point.
use crate::raw::*;
use crate::rt::*;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::Bound::{self, *};

/// Every end is exclusive or unbounded and the interval has a value.
pub fn raw_denormal<T>(r: &RawInterval<T>) -> bool {
    match r {
        RawInterval::Empty | RawInterval::Full => true,
        RawInterval::Open(l, u) => apart2(l, u),
        RawInterval::UpTo(u) => off_min(u),
        RawInterval::UpFrom(l) => off_max(l),
        _ => false,
    }
}
/// The interval has no value of a discrete type.
pub fn raw_void<T>(r: &RawInterval<T>) -> bool {
    match r {
        RawInterval::Empty => true,
        RawInterval::Open(l, u) => is_discrete() && !apart2(l, u),
        RawInterval::UpTo(u) => is_discrete() && !off_min(u),
        RawInterval::UpFrom(l) => is_discrete() && !off_max(l),
        _ => false,
    }
}
pub fn tree_insert<T: Ord + Clone>(t: &mut TineTree<T>, r: &RawInterval<T>) {
    check(raw_wf(r), "the interval added to a tree is well formed");
    set_wf(t, "the tree added to is well formed");
    forget(t);
    let w: T = witness();
    let m = set_member(t, &w) || raw_has(r, &w);
    let c = is_discrete() && set_is_canon(t) && raw_denormal(r);
    let v = set_is_void(t) && raw_void(r);
    *t = set_with(m, c, v);
}
pub fn tree_remove<T: Ord + Clone>(t: &mut TineTree<T>, r: &RawInterval<T>) {
    check(raw_wf(r), "the interval removed from a tree is well formed");
    set_wf(t, "the tree removed from is well formed");
    forget(t);
    let w: T = witness();
    let m = set_member(t, &w) && !raw_has(r, &w);
    let v = set_is_void(t);
    *t = set_with(m, false, v);
}

pub fn tree_restrict<T: Ord + Clone>(t: &mut TineTree<T>, r: &RawInterval<T>) {
    check(raw_wf(r), "the interval a tree is restricted to is well formed");
    set_wf(t, "the tree restricted is well formed");
    forget(t);
    let w: T = witness();
    let m = set_member(t, &w) && raw_has(r, &w);
    let v = set_is_void(t);
    *t = set_with(m, false, v);
}
pub fn tree_complement<T: Ord + Clone>(t: &TineTree<T>) -> TineTree<T> {
    set_wf(t, "the tree complemented is well formed");
    forget(t);
    let w: T = witness();
    let m = set_member(t, &w);
    set_with(!m, false, false)
}
pub fn tree_intersect<T: Ord + Clone>(t: &TineTree<T>, o: &TineTree<T>) -> TineTree<T> {
    set_wf(t, "the trees intersected are well formed");
    set_wf(o, "the trees intersected are well formed");
    let w: T = witness();
    let m = set_member(t, &w) && set_member(o, &w);
    let v = set_is_void(t) || set_is_void(o) || sets_tagged(t, o);
    if !v {
        forget(t);
        forget(o);
    }
    set_with(m, false, v)
}

/// A summary that does not carry over what is known of a named set.
fn forget<T>(t: &TineTree<T>) {
    if set_tag_of(t) != 0 {
        blur();
    }
}
/// The two intervals share a value.
pub fn raw_meets<T: Ord + Clone>(x: &RawInterval<T>, y: &RawInterval<T>) -> bool {
    let (a, b, c, d) = match (spec_lb(x), spec_ub(x), spec_lb(y), spec_ub(y)) {
        (Some(a), Some(b), Some(c), Some(d)) => (a, b, c, d),
        _ => return false,
    };
    let l = match (a, c) {
        (Infinite, o) | (o, Infinite) => o,
        (Include(p), Include(q)) => Include(if p < q { q } else { p }),
        (Exclude(p), Exclude(q)) => Exclude(if p < q { q } else { p }),
        (Include(p), Exclude(q)) | (Exclude(q), Include(p)) => if p <= q { Exclude(q) } else { Include(p) },
    };
    let u = match (b, d) {
        (Infinite, o) | (o, Infinite) => o,
        (Include(p), Include(q)) => Include(if p < q { p } else { q }),
        (Exclude(p), Exclude(q)) => Exclude(if p < q { p } else { q }),
        (Include(p), Exclude(q)) | (Exclude(q), Include(p)) => if q <= p { Exclude(q) } else { Include(p) },
    };
    match (l, u) {
        (Infinite, Infinite) | (Infinite, Include(_)) | (Include(_), Infinite) => true,
        (Infinite, Exclude(q)) => !is_discrete() || off_min(&q),
        (Exclude(p), Infinite) => !is_discrete() || off_max(&p),
        (Include(p), Include(q)) => p <= q,
        (Include(p), Exclude(q)) | (Exclude(p), Include(q)) => p < q,
        (Exclude(p), Exclude(q)) => p < q && (!is_discrete() || apart2(&p, &q)),
    }
}

/// The pieces of a tree still to come: between `front` and `back`, holding the
/// witness exactly when it is pending.
pub struct Pieces<T> {
    front: Option<Bound<T>>,
    back: Option<Bound<T>>,
    pending: bool,
    canon: bool,
    void: bool,
    over: bool,
    tag: u8,
}
pub fn pieces<T: Ord + Clone>(t: &TineTree<T>) -> Pieces<T> {
    set_wf(t, "the tree iterated is well formed");
    let w: T = witness();
    let pending = set_member(t, &w);
    let canon = is_discrete() && set_is_canon(t);
    let tag = set_tag_of(t);
    Pieces { front: None, back: None, pending, canon, void: set_is_void(t), over: false, tag }
}
pub fn into_pieces<T: Ord + Clone>(t: TineTree<T>) -> Pieces<T> {
    pieces(&t)
}
/// Any lower bound beyond `q`, or any at all.
fn any_lower<T: Ord + Clone>(q: &Option<Bound<T>>) -> Bound<T> {
    match q {
        None => match any_below(3) {
            0 => Infinite,
            1 => Include(any_tok()),
            _ => Exclude(any_tok()),
        },
        Some(Include(x)) => match any_below(3) {
            0 => Exclude(x.clone()),
            1 => Exclude(any_over(x)),
            _ => Include(any_over(x)),
        },
        Some(Exclude(x)) => match any_below(4) {
            0 => Exclude(x.clone()),
            1 => Include(x.clone()),
            2 => Exclude(any_over(x)),
            _ => Include(any_over(x)),
        },
        Some(Infinite) => {
            assume(false);
            Infinite
        }
    }
}
fn any_upper<T: Ord + Clone>(q: &Option<Bound<T>>) -> Bound<T> {
    match q {
        None => match any_below(3) {
            0 => Infinite,
            1 => Include(any_tok()),
            _ => Exclude(any_tok()),
        },
        Some(Include(x)) => match any_below(3) {
            0 => Exclude(x.clone()),
            1 => Exclude(any_under(x)),
            _ => Include(any_under(x)),
        },
        Some(Exclude(x)) => match any_below(4) {
            0 => Exclude(x.clone()),
            1 => Include(x.clone()),
            2 => Exclude(any_under(x)),
            _ => Include(any_under(x)),
        },
        Some(Infinite) => {
            assume(false);
            Infinite
        }
    }
}
/// Any interval starting at `l`.
fn upward<T: Ord + Clone>(l: &Bound<T>) -> RawInterval<T> {
    use RawInterval::*;
    match l {
        Infinite => match any_below(3) {
            0 => Full,
            1 => UpTo(any_tok()),
            _ => To(any_tok()),
        },
        Include(x) => match any_below(4) {
            0 => Point(x.clone()),
            1 => RightOpen(x.clone(), any_over(x)),
            2 => Closed(x.clone(), any_over(x)),
            _ => From(x.clone()),
        },
        Exclude(x) => match any_below(3) {
            0 => Open(x.clone(), any_over(x)),
            1 => LeftOpen(x.clone(), any_over(x)),
            _ => UpFrom(x.clone()),
        },
    }
}
/// Any interval ending at `u`.
fn downward<T: Ord + Clone>(u: &Bound<T>) -> RawInterval<T> {
    use RawInterval::*;
    match u {
        Infinite => match any_below(3) {
            0 => Full,
            1 => UpFrom(any_tok()),
            _ => From(any_tok()),
        },
        Include(x) => match any_below(4) {
            0 => Point(x.clone()),
            1 => LeftOpen(any_under(x), x.clone()),
            2 => Closed(any_under(x), x.clone()),
            _ => To(x.clone()),
        },
        Exclude(x) => match any_below(3) {
            0 => Open(any_under(x), x.clone()),
            1 => RightOpen(any_under(x), x.clone()),
            _ => UpTo(x.clone()),
        },
    }
}
fn piece<T: Ord + Clone>(it: &mut Pieces<T>, first: bool) -> Option<RawInterval<T>> {
    if it.over || any_bool() {
        assume(!it.pending);
        it.over = true;
        it.front = None;
        it.back = None;
        return None;
    }
    let x = if first { upward(&any_lower(&it.front)) } else { downward(&any_upper(&it.back)) };
    let (l, u) = match (spec_lb(&x), spec_ub(&x)) {
        (Some(l), Some(u)) => (l, u),
        _ => {
            assume(false);
            return None;
        }
    };
    // between the pieces already taken from both ends
    if first {
        if let Some(q) = &it.back {
            assume(apart(&u, q));
        }
    } else if let Some(q) = &it.front {
        assume(apart(q, &l));
    }
    if it.canon {
        assume(raw_denormal(&x));
    }
    if it.void {
        assume(raw_void(&x));
    }
    if it.tag != 0 {
        // known to have no value in common with the pieces of the other set;
        // only the latest of those is looked at
        let k = 3 - it.tag;
        if ghost_has(k) {
            let y: RawInterval<T> = ghost_get(k);
            assume(!raw_meets(&x, &y));
            if ghost_more(k) {
                blur();
            }
        }
        ghost_put(it.tag, &x);
    }
    let w: T = witness();
    if it.pending {
        if raw_has(&x, &w) {
            it.pending = false;
        } else if first {
            assume(!ub_has(&u, &w));
        } else {
            assume(!lb_has(&l, &w));
        }
    } else {
        assume(!raw_has(&x, &w));
    }
    if first {
        it.front = Some(u);
    } else {
        it.back = Some(l);
    }
    Some(x)
}
pub fn piece_next<T: Ord + Clone>(it: &mut Pieces<T>) -> Option<RawInterval<T>> {
    piece(it, true)
}
pub fn piece_next_back<T: Ord + Clone>(it: &mut Pieces<T>) -> Option<RawInterval<T>> {
    piece(it, false)
}

// ---- vectors of unknown length --------------------------------------------------
/// What is known of the elements of a summarised vector.
pub trait Elem: Sized {
    fn any_elem() -> Self;
    /// contains the witness
    fn hit(&self) -> bool;
    /// what holds of every element
    fn fine(&self);
}
impl<T: Ord + Clone> Elem for RawInterval<T> {
    fn any_elem() -> Self {
        let r = any_raw();
        assume(raw_wf(&r) && !raw_empty(&r));
        r
    }
    fn hit(&self) -> bool {
        let w: T = witness();
        raw_has(self, &w)
    }
    fn fine(&self) {
        check(raw_wf(self), "every piece is well formed");
        check(!raw_empty(self), "no piece is empty");
    }
}
/// Forget the elements but for what is known of all of them.
pub fn vec_close<R: Elem>(v: &mut Vec<R>) -> bool {
    let mut hit = vec_is_sum(v) && (vec_before(v) || vec_after(v));
    let n = vec_listed(v);
    let mut i = 0;
    while i < n {
        let x: &R = vec_at(v, i);
        x.fine();
        hit = hit || x.hit();
        i += 1;
    }
    vec_put(v, hit, false, None);
    hit
}
pub fn vec_push<R: Elem, A>(v: &mut Vec<R>, x: R) {
    let hit = vec_close(v);
    x.fine();
    vec_put(v, hit || x.hit(), false, None);
}
pub struct Elems<'a, R>(&'a mut Vec<R>);
pub fn elems_mut<R: Elem>(v: &mut Vec<R>) -> Elems<'_, R> {
    let hit = vec_close(v);
    vec_put(v, false, hit, None);
    Elems(v)
}
/// A vector as a slice: the summary stays with the vector itself.
pub fn elems_slice<R: Elem, A>(v: &mut Vec<R>) -> &mut Vec<R> {
    v
}
pub fn elems_mut_of<R: Elem, A>(v: &mut Vec<R>) -> Elems<'_, R> {
    elems_mut(v)
}
pub fn elems_mut_next<'a, R: Elem>(it: &'a mut Elems<'_, R>) -> Option<&'a mut R> {
    let v: &mut Vec<R> = it.0;
    let after = vec_after(v);
    let mut before = vec_before(v);
    if vec_listed(v) > 0 {
        let x: &R = vec_at(v, 0);
        x.fine();
        before = before || x.hit();
    }
    if any_bool() {
        assume(!after);
        vec_put(v, before, false, None);
        return None;
    }
    let x = R::any_elem();
    let h = x.hit();
    assume(!h || after);
    let rest = after && (!h || any_bool());
    vec_put(v, before, rest, Some(x));
    Some(vec_at(v, 0))
}
pub fn elems_mut_find<R: Elem + 'static, P: FnMut(&&'static mut R) -> bool>(it: &mut Elems<'_, R>, mut p: P) -> Option<&'static mut R> {
    loop {
        let r: &'static mut Elems<'static, R> = unsafe { std::mem::transmute(&mut *it) };
        match elems_mut_next(r) {
            None => return None,
            Some(x) => {
                if p(&x) {
                    return Some(x);
                }
            }
        }
    }
}
pub fn elems_mut_for_each<R: Elem + 'static, F: FnMut(&'static mut R)>(mut it: Elems<'_, R>, mut f: F) {
    loop {
        let r: &'static mut Elems<'static, R> = unsafe { std::mem::transmute(&mut it) };
        match elems_mut_next(r) {
            None => return,
            Some(x) => f(x),
        }
    }
}
/// The elements of a summarised vector, by value.
pub struct Taken {
    hit: bool,
}
pub fn taken<R: Elem, A>(mut v: Vec<R>) -> Taken {
    Taken { hit: vec_close(&mut v) }
}
pub fn taken_next<R: Elem, A>(it: &mut Taken) -> Option<R> {
    if any_bool() {
        assume(!it.hit);
        return None;
    }
    let x = R::any_elem();
    let h = x.hit();
    assume(!h || it.hit);
    it.hit = it.hit && (!h || any_bool());
    Some(x)
}
