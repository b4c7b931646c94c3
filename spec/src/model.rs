//! Reference behaviour of library functions the analyzer does not enter.
use crate::rt;
use std::collections::BTreeSet;
use std::ops::Try;

/// A collected vector keeps its first elements; whether more follow is kept too.
pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(iter: I) -> Vec<T> {
    let mut v = Vec::new();
    let mut it = iter.into_iter();
    loop {
        if v.len() == 5 {
            if it.next().is_some() {
                rt::vec_more(&mut v);
            }
            return v;
        }
        match it.next() {
            Some(x) => v.push(x),
            None => return v,
        }
    }
}
pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, iter: I) {
    let mut it = iter.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn seq_eq<S: ?Sized, U: ?Sized, A: PartialEq<B>, B>(a: &S, b: &U) -> bool {
    let n = rt::seq_len(a);
    if n != rt::seq_len(b) {
        return false;
    }
    let mut i = 0;
    while i < n {
        if !rt::seq_at::<S, A>(a, i).eq(rt::seq_at::<U, B>(b, i)) {
            return false;
        }
        i += 1;
    }
    true
}
pub fn seq_ne<S: ?Sized, U: ?Sized, A: PartialEq<B>, B>(a: &S, b: &U) -> bool {
    !seq_eq::<S, U, A, B>(a, b)
}
pub fn vec_from_elem<T: Clone>(x: T, n: usize) -> Vec<T> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < n {
        v.push(x.clone());
        i += 1;
    }
    v
}
pub fn set_retain<T: Ord, F: FnMut(&T) -> bool>(s: &mut BTreeSet<T>, mut f: F) {
    let mut old = BTreeSet::new();
    std::mem::swap(&mut old, s);
    let mut it = old.into_iter();
    while let Some(x) = it.next() {
        if f(&x) {
            let _ = s.insert(x);
        }
    }
}
pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn iter_try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x)?;
    }
    R::from_output(acc)
}
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
/// Of equal elements the last one stays.
pub fn set_from_iter<T: Ord, I: IntoIterator<Item = T>>(iter: I) -> BTreeSet<T> {
    let mut s = BTreeSet::new();
    let mut it = iter.into_iter();
    while let Some(x) = it.next() {
        let _ = s.replace(x);
    }
    s
}
/// Of equal elements the first one stays.
pub fn set_extend<T: Ord, I: IntoIterator<Item = T>>(s: &mut BTreeSet<T>, iter: I) {
    let mut it = iter.into_iter();
    while let Some(x) = it.next() {
        let _ = s.insert(x);
    }
}

pub fn int_min<T: PartialOrd>(a: T, b: T) -> T {
    if b < a { b } else { a }
}
pub fn int_max<T: PartialOrd>(a: T, b: T) -> T {
    if b < a { a } else { b }
}

/// Sets without a name are walked when one of them is spelled out; otherwise
/// equal ones agree at the witness, and unequal ones may be alike all the same.
pub fn set_eq<T: PartialEq>(a: &BTreeSet<T>, b: &BTreeSet<T>) -> bool {
    let (m, n) = (rt::set_name(a), rt::set_name(b));
    if m < 255 && n < 255 {
        return m == n;
    }
    if rt::set_plain(a) || rt::set_plain(b) {
        let (mut i, mut j) = (a.iter(), b.iter());
        loop {
            match (i.next(), j.next()) {
                (None, None) => return true,
                (Some(x), Some(y)) if *x == *y => {}
                _ => return false,
            }
        }
    }
    let w = rt::witness::<T>();
    let equal = rt::any_bool();
    if equal {
        rt::assume(rt::set_member(a, &w) == rt::set_member(b, &w));
    } else {
        rt::blur();
    }
    equal
}
pub fn set_hash<T, H: std::hash::Hasher>(s: &BTreeSet<T>, h: &mut H) {
    let n = rt::set_name(s);
    h.write_usize(if n < 255 { n } else { rt::set_member(s, &rt::witness::<T>()) as usize })
}

/// Formatting: each part of the arguments is written in turn.
pub fn fmt_new_arg<T: std::fmt::Display>(x: &T) -> rt::Arg {
    rt::fmt_pair(x, <T as std::fmt::Display>::fmt)
}
pub fn fmt_write(f: &mut std::fmt::Formatter<'_>, a: std::fmt::Arguments<'_>) -> std::fmt::Result {
    let n = rt::fmt_parts(&a);
    let mut i = 0;
    while i < n {
        match rt::fmt_lit(&a, i) {
            Some(s) => f.write_str(s)?,
            None => {
                let (x, p) = rt::fmt_arg(&a, i);
                p(x, f)?
            }
        }
        i += 1;
    }
    Ok(())
}
pub fn fmt_format(a: std::fmt::Arguments<'_>) -> &'static str {
    let f = rt::fmt_new();
    let _ = fmt_write(f, a);
    rt::fmt_text(f)
}
pub fn fmt_to_string<T: std::fmt::Display>(x: &T) -> &'static str {
    let f = rt::fmt_new();
    let _ = x.fmt(f);
    rt::fmt_text(f)
}
