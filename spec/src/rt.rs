//! Intrinsics known to the analyzer, and the abstract element types.
use std::cmp::Ordering;

macro_rules! intrinsic {
    ($($(#[$m:meta])* fn $n:ident $(<$($g:ident $(: ?$b:ident)?),*>)? ($($a:ident : $t:ty),*) $(-> $r:ty)?;)*) => {
        $($(#[$m])* #[inline(never)] pub fn $n $(<$($g $(: ?$b)?),*>)? ($($a: $t),*) $(-> $r)? {
            $(let _ = $a;)*
            panic!("intrinsic")
        })*
    };
}
intrinsic! {
    /// any element value, in any position relative to the known ones
    fn any_tok<T>() -> T;
    /// any value above (below) the given one
    fn any_over<T>(a: &T) -> T;
    fn any_under<T>(a: &T) -> T;
    fn any_bool() -> bool;
    fn any_below(n: usize) -> usize;
    fn assume(b: bool);
    fn check(b: bool, what: &str);
    fn reach(what: &str);
    fn tok_eq<T>(a: &T, b: &T) -> bool;
    fn tok_ne<T>(a: &T, b: &T) -> bool;
    fn tok_lt<T>(a: &T, b: &T) -> bool;
    fn tok_le<T>(a: &T, b: &T) -> bool;
    fn tok_gt<T>(a: &T, b: &T) -> bool;
    fn tok_ge<T>(a: &T, b: &T) -> bool;
    fn tok_cmp<T>(a: &T, b: &T) -> Ordering;
    fn tok_partial_cmp<T>(a: &T, b: &T) -> Option<Ordering>;
    fn tok_max<T>(a: T, b: T) -> T;
    fn tok_min<T>(a: T, b: T) -> T;
    fn tok_clone<T>(a: &T) -> T;
    /// an element as a number, and back
    fn tok_code<T>(a: &T) -> u64;
    fn tok_coded<T>(a: &u64) -> T;
    fn fin_pred<T>(a: &T) -> Option<T>;
    fn fin_succ<T>(a: &T) -> Option<T>;
    /// the element type of this harness is discrete with least and greatest value
    fn discrete();
    /// from here on, only how far the code steps away from the values it was
    /// given is looked at
    fn count_steps();
    /// any well-formed marker set inside the struct W
    fn any_set<W>(canonical: bool) -> W;
    /// summaries speak about this point
    fn set_witness<T>(p: &T);
    fn witness<T>() -> T;
    /// any well-formed marker set with this membership at the witness
    fn set_with<W>(member: bool, canonical: bool, void: bool) -> W;
    /// known to hold no value
    fn set_is_void<W>(w: &W) -> bool;
    /// name two sets, and recognise them while unchanged: this says that they
    /// have no value in common
    fn set_tag1<W>(w: &W);
    fn set_tag2<W>(w: &W);
    fn sets_tagged<W>(v: &W, w: &W) -> bool;
    /// every marker is spelled out
    fn set_plain<W>(w: &W) -> bool;
    fn set_tag_of<W>(w: &W) -> u8;
    /// whatever the summaries leave open, the two sets share a value
    fn sets_meet<W>(v: &W, w: &W) -> bool;
    /// the latest piece taken of a named set, and whether it is not the first
    fn ghost_put<R>(k: u8, r: &R);
    fn ghost_has(k: u8) -> bool;
    fn ghost_get<R>(k: u8) -> R;
    fn ghost_more(k: u8) -> bool;
    /// something known of the named sets is given up here: what fails from
    /// here on is undecided
    fn blur();
    /// a set known by name only: of equal content exactly when of equal name
    fn set_named<W>(n: usize) -> W;
    fn set_name<W>(w: &W) -> usize;
    /// the size of some set was asked for, and sizes are not kept
    fn lens_taken() -> bool;
    fn undecided(what: &str);
    fn set_is_canon<W>(w: &W) -> bool;
    fn is_discrete() -> bool;
    /// some value lies strictly between a and b
    fn apart2<T>(a: &T, b: &T) -> bool;
    /// not the least (greatest) value
    fn off_min<T>(a: &T) -> bool;
    fn off_max<T>(a: &T) -> bool;
    fn set_member<W, T>(w: &W, p: &T) -> bool;
    fn set_wf<W>(w: &W, what: &str);
    fn set_canon<W>(w: &W, what: &str);
    /// restrict to sets of at most n markers
    fn set_explicit<W>(w: &W, n: usize);
    /// put a U into the single-field struct W
    fn wrap<W, U>(u: U) -> W;
    /// the same value by another type
    fn disguise<A, B>(a: A) -> B;
    /// the U inside the single-field struct W
    fn peel<W, U>(w: &W) -> &U;
    fn any_int<I>() -> I;
    /// x == y + k
    fn int_is<I>(x: &I, y: &I, k: i32) -> bool;
    fn vec_more<T>(v: &mut Vec<T>);
    fn vec_has_more<T>(v: &Vec<T>) -> bool;
    /// a vector of unknown length: whether the witness is in an element before
    /// (after) the one at hand
    fn vec_is_sum<T>(v: &Vec<T>) -> bool;
    fn vec_before<T>(v: &Vec<T>) -> bool;
    fn vec_after<T>(v: &Vec<T>) -> bool;
    fn vec_put<T>(v: &mut Vec<T>, before: bool, after: bool, at_hand: Option<T>);
    fn vec_listed<T>(v: &Vec<T>) -> usize;
    fn vec_at<T>(v: &Vec<T>, i: usize) -> &mut T;
    fn seq_len<S: ?Sized>(s: &S) -> usize;
    fn seq_at<S: ?Sized, A>(s: &S, i: usize) -> &A;
    /// text: a formatter and what was written to it
    fn fmt_new() -> &'static mut std::fmt::Formatter<'static>;
    fn fmt_text(f: &std::fmt::Formatter<'static>) -> &'static str;
    fn fmt_tok<T>(f: &mut std::fmt::Formatter<'_>, t: &T) -> std::fmt::Result;
    fn fmt_parts(a: &std::fmt::Arguments<'_>) -> usize;
    fn fmt_lit(a: &std::fmt::Arguments<'_>, i: usize) -> Option<&'static str>;
    /// the element printed as this text
    fn tok_parse<T>(s: &str) -> Option<T>;
    /// any text of at most n words of interval notation and these elements
    fn any_text<T>(n: usize, of: &[T; 2]) -> &'static str;
    /// structural equality
    fn same<T>(a: &T, b: &T) -> bool;
}

type FmtFn<T> = fn(&T, &mut std::fmt::Formatter<'_>) -> std::fmt::Result;
pub struct Arg;
#[inline(never)]
pub fn fmt_pair<T: ?Sized>(x: &T, f: FmtFn<T>) -> Arg {
    let _ = (x, f);
    panic!("intrinsic")
}
#[inline(never)]
pub fn fmt_arg<'a>(a: &'a std::fmt::Arguments<'_>, i: usize) -> (&'a (), FmtFn<()>) {
    let _ = (a, i);
    panic!("intrinsic")
}
/// A text that is not an element.
#[derive(Debug)]
pub struct NotElement;

macro_rules! element {
    ($n:ident) => {
        pub struct $n(#[allow(dead_code)] u64);
        impl Clone for $n {
            fn clone(&self) -> Self {
                tok_clone(self)
            }
        }
        impl PartialEq for $n {
            fn eq(&self, o: &Self) -> bool {
                tok_eq(self, o)
            }
            fn ne(&self, o: &Self) -> bool {
                tok_ne(self, o)
            }
        }
        impl Eq for $n {}
        impl PartialOrd for $n {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                tok_partial_cmp(self, o)
            }
            fn lt(&self, o: &Self) -> bool {
                tok_lt(self, o)
            }
            fn le(&self, o: &Self) -> bool {
                tok_le(self, o)
            }
            fn gt(&self, o: &Self) -> bool {
                tok_gt(self, o)
            }
            fn ge(&self, o: &Self) -> bool {
                tok_ge(self, o)
            }
        }
        impl Ord for $n {
            fn cmp(&self, o: &Self) -> Ordering {
                tok_cmp(self, o)
            }
            fn max(self, o: Self) -> Self {
                tok_max(self, o)
            }
            fn min(self, o: Self) -> Self {
                tok_min(self, o)
            }
        }
        impl std::hash::Hash for $n {
            /// equal values write the same number: this one, whether they are
            /// at the witness
            fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
                h.write_usize(tok_eq(self, &witness::<$n>()) as usize)
            }
        }
        impl std::fmt::Display for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                fmt_tok(f, self)
            }
        }
        impl std::str::FromStr for $n {
            type Err = NotElement;
            fn from_str(s: &str) -> Result<Self, NotElement> {
                tok_parse(s).ok_or(NotElement)
            }
        }
        impl std::fmt::Debug for $n {
            fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                panic!("intrinsic")
            }
        }
    };
}
element!(Tok);
element!(Fin);
impl normalize_interval::normalize::Finite for Fin {
    const MINIMUM: Fin = Fin(1);
    const MAXIMUM: Fin = Fin(2);
    fn pred(&self) -> Option<Self> {
        fin_pred(self)
    }
    fn succ(&self) -> Option<Self> {
        fin_succ(self)
    }
}
