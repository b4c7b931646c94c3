//! E01: what the generated harnesses (one for each public function that makes
//! or changes a guarded value) are put together from.
use crate::interval::*;
use crate::raw::*;
use crate::rt::*;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine::Tine;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::{Bound, Interval, Selection};
use std::marker::PhantomData;
use std::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};

/// Any value outside code can have.
pub trait Any: Sized {
    fn any() -> Self;
}
/// In normal form.
pub trait Norm {
    fn norm(&self);
}
impl Any for Tok {
    fn any() -> Self {
        any_tok()
    }
}
impl Any for Fin {
    fn any() -> Self {
        any_tok()
    }
}
impl Any for bool {
    fn any() -> Self {
        any_bool()
    }
}
impl<T> Any for Bound<T> {
    fn any() -> Self {
        any_bound()
    }
}
/// Trees ask for ordered ends.
impl Any for RawInterval<Tok> {
    fn any() -> Self {
        any_raw()
    }
}
impl Any for RawInterval<Fin> {
    fn any() -> Self {
        any_loose()
    }
}
impl Any for Interval<Fin> {
    fn any() -> Self {
        any_interval()
    }
}
impl Any for Selection<Fin> {
    fn any() -> Self {
        crate::selection::any_sel()
    }
}
impl<T> Any for TineTree<T> {
    fn any() -> Self {
        any_set(false)
    }
}
impl<T> Any for Tine<T> {
    fn any() -> Self {
        match any_below(3) {
            0 => Tine::Lower(any_bound()),
            1 => Tine::Upper(any_bound()),
            _ => Tine::Point(any_bound()),
        }
    }
}
impl<A: Any> Any for Option<A> {
    fn any() -> Self {
        if any_bool() {
            Some(A::any())
        } else {
            None
        }
    }
}
impl<A: Any, B: Any> Any for (A, B) {
    fn any() -> Self {
        (A::any(), B::any())
    }
}
impl Any for () {
    fn any() -> Self {}
}
impl<A: Any> Any for Range<A> {
    fn any() -> Self {
        A::any()..A::any()
    }
}
impl<A: Any> Any for RangeInclusive<A> {
    fn any() -> Self {
        RangeInclusive::new(A::any(), A::any())
    }
}
impl<A: Any> Any for RangeFrom<A> {
    fn any() -> Self {
        A::any()..
    }
}
impl<A: Any> Any for RangeTo<A> {
    fn any() -> Self {
        ..A::any()
    }
}
impl<A: Any> Any for RangeToInclusive<A> {
    fn any() -> Self {
        ..=A::any()
    }
}
impl Any for RangeFull {
    fn any() -> Self {
        ..
    }
}

impl Norm for Interval<Fin> {
    fn norm(&self) {
        check(raw_norm(raw_of(self)), "the interval is in normal form");
    }
}
impl Norm for Selection<Fin> {
    fn norm(&self) {
        let t: &TineTree<Fin> = peel(self);
        set_wf(t, "the selection is well formed");
        set_canon(t, "the selection is in canonical form");
    }
}
impl<T> Norm for TineTree<T> {
    fn norm(&self) {
        set_wf(self, "the tree is well formed");
    }
}
impl<N: Norm + ?Sized> Norm for &N {
    fn norm(&self) {
        (**self).norm()
    }
}
impl<N: Norm + ?Sized> Norm for &mut N {
    fn norm(&self) {
        (**self).norm()
    }
}
impl<N: Norm> Norm for Option<N> {
    fn norm(&self) {
        if let Some(x) = self {
            x.norm()
        }
    }
}
impl<N: Norm, E> Norm for Result<N, E> {
    fn norm(&self) {
        if let Ok(x) = self {
            x.norm()
        }
    }
}
impl<N: Norm> Norm for Vec<N> {
    fn norm(&self) {
        for x in self.iter() {
            x.norm()
        }
    }
}
impl<N: Norm> Norm for Box<N> {
    fn norm(&self) {
        (**self).norm()
    }
}
impl<A: Norm, B: Norm> Norm for (A, B) {
    fn norm(&self) {
        self.0.norm();
        self.1.norm();
    }
}

/// Any sequence, of any length.
pub struct Feed<A> {
    ended: bool,
    of: PhantomData<A>,
}
impl<A> Feed<A> {
    pub fn new() -> Self {
        Feed { ended: false, of: PhantomData }
    }
}
impl<A: Any> Iterator for Feed<A> {
    type Item = A;
    fn next(&mut self) -> Option<A> {
        if self.ended || any_bool() {
            self.ended = true;
            return None;
        }
        Some(A::any())
    }
}
