//! Abstract values.
use crate::tree::{Key, Tree};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Base {
    Local { frame: u32, local: u32 },
    Heap(u32),
    Const(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ptr {
    pub base: Base,
    pub path: Rc<Vec<u32>>,
}

/// A piece of an abstract string.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Piece {
    Lit(Rc<str>),
    /// The text form of an element value.
    Disp(u32),
    /// That text form without the minus sign it begins with.
    Tail(u32),
}

/// An iterator over an ordered set of markers: everything strictly between
/// `front` and `back` remains, and those ends themselves where `ends` says so.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct SetIter {
    pub src: SetSrc,
    pub front: Option<Key>,
    pub back: Option<Key>,
    pub ends: (bool, bool),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum SetSrc {
    Borrow(Ptr),
    Owned(Rc<Tree>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct AVec {
    pub elems: Vec<Val>,
    /// More elements than the ones listed follow (their values are dropped).
    pub more: bool,
    /// Summarised: some element before (after) the one listed contains the
    /// witness. Always with `more`.
    pub sum: Option<(bool, bool)>,
}

/// A summarised sequence: `count` unknown, elements produced on demand.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val {
    Uninit,
    /// a heap slot nothing points to
    Free,
    Int(u128),
    /// symbolic integer: index into State::syms, plus offset
    Sym(u32, i128),
    /// An integer known to be at least this value.
    AtLeast(u128),
    Tok(u32),
    /// `Finite::MINIMUM` (false) / `MAXIMUM` (true) of the abstract element type
    TokConst(bool),
    Agg(u32, Rc<Vec<Val>>),
    Ref(Ptr),
    Slice(Ptr, u32, u32),
    Fn(u32),
    Set(Rc<Tree>),
    SetIter(Rc<SetIter>),
    Vec(Rc<AVec>),
    /// by-value iterator: vec, next index, end index
    VecIter(Rc<AVec>, u32, u32),
    /// slice iterator: pointer to array/vec, next index, end index
    SliceIter(Ptr, u32, u32),
    Str(Rc<Vec<Piece>>),
    /// opaque value of some kind (formatter, argument, ...)
    Opaque(&'static str, Rc<Vec<Val>>),
}

impl Val {
    pub fn unit() -> Val {
        thread_local!(static U: Rc<Vec<Val>> = Rc::new(vec![]));
        Val::Agg(0, U.with(|u| u.clone()))
    }
    pub fn bool(b: bool) -> Val {
        Val::Int(b as u128)
    }
    pub fn agg(v: u32, f: Vec<Val>) -> Val {
        if f.is_empty() {
            return match Val::unit() {
                Val::Agg(_, r) => Val::Agg(v, r),
                _ => unreachable!(),
            };
        }
        Val::Agg(v, Rc::new(f))
    }
    pub fn none() -> Val {
        Val::agg(0, vec![])
    }
    pub fn some(v: Val) -> Val {
        Val::agg(1, vec![v])
    }
    pub fn opt(v: Option<Val>) -> Val {
        match v {
            None => Val::none(),
            Some(v) => Val::some(v),
        }
    }
    pub fn is_uninit(&self) -> bool {
        matches!(self, Val::Uninit)
    }
}

impl Ptr {
    pub fn local(frame: u32, local: u32) -> Ptr {
        thread_local!(static E: Rc<Vec<u32>> = Rc::new(vec![]));
        Ptr { base: Base::Local { frame, local }, path: E.with(|e| e.clone()) }
    }
    pub fn of(base: Base) -> Ptr {
        Ptr { base, path: Rc::new(vec![]) }
    }
    pub fn field(&self, i: u32) -> Ptr {
        let mut p = (*self.path).clone();
        p.push(i);
        Ptr { base: self.base, path: Rc::new(p) }
    }
}
