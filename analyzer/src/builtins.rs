//! Functions the interpreter does not enter: the abstract element type and
//! other intrinsics of the spec crate, the ordered set and vector types, and
//! a few primitives of the standard library.
use crate::ctx::{Ctx, Res, Stop};
use crate::interp::*;
use crate::lower::*;
use crate::tree::{Key, Kind, Tree};
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::cell::Cell;
use std::rc::Rc;

/// How the crate's marker type spells its variants.
#[derive(Clone, Copy, Debug)]
pub struct TineMap {
    lower: u32,
    upper: u32,
    point: u32,
    inc: u32,
    exc: u32,
    inf: u32,
}
thread_local!(pub static TINE: Cell<Option<TineMap>> = const { Cell::new(None) });

#[derive(Clone, Debug, PartialEq)]
pub enum B {
    Model(String, Vec<GenericArgKind>),
    Panic(&'static str),
    Unit,
    Ident,
    // spec::rt
    AnyTok,
    AnyOver,
    AnyUnder,
    AnyBool,
    AnyBelow,
    Assume,
    Check,
    Reach,
    TokEq,
    TokNe,
    TokLt,
    TokLe,
    TokGt,
    TokGe,
    TokCmp,
    TokPartialCmp,
    TokMax,
    TokMin,
    TokClone,
    Pred,
    Succ,
    CountSteps,
    Discrete,
    AnySet(u32),
    SetWith(u32),
    SetIsCanon,
    SetIsVoid,
    SetTag(u8),
    SetPlain,
    SetsMeet,
    SetTagOf,
    Blur,
    GhostPut,
    GhostGet,
    GhostHas,
    GhostMore,
    SetsTagged,
    SetNamed(u32),
    SetName,
    LensTaken,
    Undecided,
    SetWitness,
    Witness,
    IsDiscrete,
    Apart2,
    OffEnd(bool),
    SetMember,
    SetWf,
    SetCanon,
    SetExplicit,
    Wrap(u32, bool),
    AnyInt(IntT),
    IntIs(IntT),
    VecMore,
    VecHasMore,
    VecIsSum,
    VecBefore,
    VecAfter,
    VecPut,
    VecListed,
    VecAt,
    SeqLen,
    SeqAt,
    Same,
    // BTreeSet
    SetNew,
    SetClone,
    SetIsEmpty,
    SetLen,
    SetIterLen,
    SetIter,
    SetIntoIter,
    SetNext(bool),
    SetNextBack(bool),
    SetInsert(bool),
    SetTake,
    SetRemove,
    SetGet,
    SetContains,
    SetFirst,
    SetLast,
    SetPopFirst,
    SetPopLast,
    SetSplitOff,
    SetAppend,
    SetClear,
    SetIterClone,
    SetRange(u8),
    // Vec and slices
    VecNew,
    VecPush,
    VecPop,
    VecLen,
    VecIsEmpty,
    VecIntoIter,
    VecNext,
    VecNextBack,
    VecClear,
    VecDeref,
    VecFromBox,
    BoxUninit,
    VecFromUninit,
    ArrIntoIter,
    SliceIter,
    SliceNext,
    SliceNextBack,
    SliceLen,
    SliceIsEmpty,
    SliceGet,
    SliceToVec,
    BoxNew,
    // memory
    PtrRead,
    PtrWrite,
    Swap,
    SizeHint,
    TypeZst,
    NonZero(bool),
    // text
    Str(&'static str),
}

impl B {
    pub fn may_choose(&self) -> bool {
        use B::*;
        matches!(
            self,
            AnyTok | AnyOver | AnyUnder | AnyBool | AnyBelow | Pred | Succ | AnySet(_) | SetMember | SetCanon | SetExplicit | AnyInt(_) | IntIs(_)
                | SetIsEmpty | SetLen | SetIterLen | SetNext(_) | SetNextBack(_) | SetInsert(_) | SetTake | SetRemove | SetGet | SetContains
                | SetIsCanon | SetIsVoid | SetTag(_) | SetsTagged | SetPlain | SetsMeet | SetTagOf | Apart2 | OffEnd(_) | SetFirst | SetLast | SetPopFirst | SetPopLast | SetSplitOff | SetAppend | SetRange(_) | Discrete | Same | Str(_)
        )
    }
}

thread_local!(static WRAPS: std::cell::RefCell<Vec<(Ty, Option<Ty>)>> = const { std::cell::RefCell::new(vec![]) });
fn wrap_id(t: Ty, u: Option<Ty>) -> u32 {
    WRAPS.with(|w| {
        let mut w = w.borrow_mut();
        if let Some(i) = w.iter().position(|x| *x == (t, u)) {
            return i as u32;
        }
        w.push((t, u));
        w.len() as u32 - 1
    })
}

fn tys(inst: &Instance) -> Vec<GenericArgKind> {
    inst.args().0.iter().filter(|a| matches!(a, GenericArgKind::Type(_))).cloned().collect()
}
fn ty_at(inst: &Instance, i: usize) -> Option<Ty> {
    match tys(inst).get(i) {
        Some(GenericArgKind::Type(t)) => Some(*t),
        _ => None,
    }
}
/// The ordered set's element type must be the marker type.
fn set_elem(t: Ty) -> bool {
    let TyKind::RigidTy(RigidTy::Adt(d, _)) = t.kind() else { return false };
    if TINE.with(|t| t.get()).is_some() {
        return d.name().ends_with("Tine");
    }
    if d.kind() != AdtKind::Enum {
        return false;
    }
    let vs: Vec<(String, u32)> = d.variants().iter().enumerate().map(|(i, v)| (v.name().to_string(), i as u32)).collect();
    let find = |n: &str, vs: &Vec<(String, u32)>| vs.iter().find(|v| v.0 == n).map(|v| v.1);
    let (Some(l), Some(u), Some(p)) = (find("Lower", &vs), find("Upper", &vs), find("Point", &vs)) else { return false };
    if vs.len() != 3 {
        return false;
    }
    // the bound inside
    let f = &d.variants()[0].fields();
    if f.len() != 1 {
        return false;
    }
    let TyKind::RigidTy(RigidTy::Adt(_, a)) = t.kind() else { return false };
    let bt = f[0].ty_with_args(&a);
    let TyKind::RigidTy(RigidTy::Adt(bd, _)) = bt.kind() else { return false };
    let vs: Vec<(String, u32)> = bd.variants().iter().enumerate().map(|(i, v)| (v.name().to_string(), i as u32)).collect();
    let (Some(i), Some(e), Some(n)) = (find("Include", &vs), find("Exclude", &vs), find("Infinite", &vs)) else { return false };
    TINE.with(|t| t.set(Some(TineMap { lower: l, upper: u, point: p, inc: i, exc: e, inf: n })));
    true
}

pub fn classify(def: &str, inst: &Instance) -> Option<B> {
    use B::*;
    let d = def;
    let model = |n: &str, idx: &[usize]| -> Option<B> {
        let t = tys(inst);
        Some(Model(n.to_string(), idx.iter().filter_map(|i| t.get(*i).cloned()).collect()))
    };
    if let Some(n) = d.strip_prefix("spec::rt::") {
        return Some(match n {
            "any_tok" => AnyTok,
            "any_over" => AnyOver,
            "any_under" => AnyUnder,
            "any_bool" => AnyBool,
            "any_below" => AnyBelow,
            "assume" => Assume,
            "check" => Check,
            "reach" => Reach,
            "tok_eq" => TokEq,
            "tok_ne" => TokNe,
            "tok_lt" => TokLt,
            "tok_le" => TokLe,
            "tok_gt" => TokGt,
            "tok_ge" => TokGe,
            "tok_cmp" => TokCmp,
            "tok_partial_cmp" => TokPartialCmp,
            "tok_max" => TokMax,
            "tok_min" => TokMin,
            "tok_clone" | "tok_code" | "tok_coded" => TokClone,
            "fin_pred" => Pred,
            "fin_succ" => Succ,
            "discrete" => Discrete,
            "count_steps" => CountSteps,
            "any_set" => AnySet(wrap_id(ty_at(inst, 0)?, None)),
            "set_with" => SetWith(wrap_id(ty_at(inst, 0)?, None)),
            "set_is_canon" => SetIsCanon,
            "set_is_void" => SetIsVoid,
            "set_tag1" => SetTag(1),
            "set_tag2" => SetTag(2),
            "sets_tagged" => SetsTagged,
            "set_plain" => SetPlain,
            "sets_meet" => SetsMeet,
            "set_tag_of" => SetTagOf,
            "blur" => Blur,
            "ghost_put" => GhostPut,
            "ghost_get" => GhostGet,
            "ghost_has" => GhostHas,
            "ghost_more" => GhostMore,
            "set_named" => SetNamed(wrap_id(ty_at(inst, 0)?, None)),
            "disguise" => Ident,
            "set_name" => SetName,
            "lens_taken" => LensTaken,
            "undecided" => Undecided,
            "set_witness" => SetWitness,
            "witness" => Witness,
            "is_discrete" => IsDiscrete,
            "apart2" => Apart2,
            "off_min" => OffEnd(false),
            "off_max" => OffEnd(true),
            "set_member" => SetMember,
            "set_wf" => SetWf,
            "set_canon" => SetCanon,
            "set_explicit" => SetExplicit,
            "wrap" => Wrap(wrap_id(ty_at(inst, 0)?, ty_at(inst, 1)), true),
            "peel" => Wrap(wrap_id(ty_at(inst, 0)?, ty_at(inst, 1)), false),
            "any_int" => AnyInt(int_ty(ty_at(inst, 0)?)?),
            "int_is" => IntIs(int_ty(ty_at(inst, 0)?)?),
            "vec_more" => VecMore,
            "vec_has_more" => VecHasMore,
            "vec_is_sum" => VecIsSum,
            "vec_before" => VecBefore,
            "vec_after" => VecAfter,
            "vec_put" => VecPut,
            "vec_listed" => VecListed,
            "vec_at" => VecAt,
            "seq_len" => SeqLen,
            "seq_at" => SeqAt,
            "same" => Same,
            "fmt_new" => Str("fmt_new"),
            "fmt_text" => Str("fmt_text"),
            "fmt_tok" => Str("fmt_tok"),
            "fmt_pair" => Str("fmt_pair"),
            "fmt_parts" => Str("fmt_parts"),
            "fmt_lit" => Str("fmt_lit"),
            "fmt_arg" => Str("fmt_arg"),
            "tok_parse" => Str("tok_parse"),
            "any_text" => Str("any_text"),
            _ => return None,
        });
    }
    // ordered sets
    if d.contains("std::collections::BTreeSet") || d.contains("std::collections::btree_set::") {
        let el = ty_at(inst, 0);
        let ok = el.map(set_elem).unwrap_or(false);
        if !ok {
            return None;
        }
        let last = d.rsplit("::").next().unwrap_or("");
        if d.starts_with("std::collections::BTreeSet::<") {
            return match last {
                "new" => Some(SetNew),
                "is_empty" => Some(SetIsEmpty),
                "len" => Some(SetLen),
                "iter" => Some(SetIter),
                "insert" => Some(SetInsert(true)),
                "replace" => Some(SetInsert(false)),
                "take" => Some(SetTake),
                "remove" => Some(SetRemove),
                "get" => Some(SetGet),
                "contains" => Some(SetContains),
                "first" => Some(SetFirst),
                "last" => Some(SetLast),
                "pop_first" => Some(SetPopFirst),
                "pop_last" => Some(SetPopLast),
                "split_off" => Some(SetSplitOff),
                "append" => Some(SetAppend),
                "clear" => Some(SetClear),
                "range" => {
                    let rt = tys(inst).into_iter().rev().find_map(|a| match a {
                        GenericArgKind::Type(t) => range_kind(t),
                        _ => None,
                    });
                    rt.map(SetRange)
                }
                "retain" => {
                    let t = tys(inst);
                    Some(Model("set_retain".into(), vec![t[0].clone(), t[t.len() - 1].clone()]))
                }
                _ => None,
            };
        }
        if d.contains("BTreeSet<T, A> as std::clone::Clone>") || d.contains("BTreeSet<T> as std::clone::Clone>") {
            return if last == "clone" { Some(SetClone) } else { None };
        }
        if d.contains("as std::cmp::PartialEq>::eq") {
            return model("set_eq", &[0]);
        }
        if d.contains("as std::hash::Hash>::hash") {
            let t = tys(inst);
            return Some(Model("set_hash".into(), vec![t[0].clone(), t[t.len() - 1].clone()]));
        }
        if d.contains("as std::default::Default>") {
            return Some(SetNew);
        }
        if d.contains("as std::iter::FromIterator<") {
            return model("set_from_iter", &[0, 1]);
        }
        if d.contains("as std::iter::Extend<T>>::extend") {
            let t = tys(inst);
            return Some(Model("set_extend".into(), vec![t[0].clone(), t[t.len() - 1].clone()]));
        }
        if d.contains("as std::iter::IntoIterator>::into_iter") {
            return Some(if d.contains("<&") { SetIter } else { SetIntoIter });
        }
        let owned = d.contains("btree_set::IntoIter");
        if d.contains("btree_set::Iter<") || d.contains("btree_set::IntoIter<") || d.contains("btree_set::Range<") {
            return match last {
                "next" | "min" => Some(SetNext(owned)),
                "next_back" | "last" | "max" => Some(SetNextBack(owned)),
                "clone" => Some(SetIterClone),
                "len" => Some(SetIterLen),
                "size_hint" => Some(SizeHint),
                _ => None,
            };
        }
        return None;
    }
    if d.starts_with("std::num::NonZero::<") {
        return match d.rsplit("::").next().unwrap_or("") {
            "new" => Some(NonZero(true)),
            "get" => Some(NonZero(false)),
            _ => None,
        };
    }
    if d.starts_with("std::boxed::Box::<") && d.ends_with("::new_uninit") {
        return Some(BoxUninit);
    }
    if d.ends_with("::box_assume_init_into_vec_unsafe") {
        return Some(VecFromUninit);
    }
    // vectors
    if d.starts_with("std::vec::") || d.contains("std::vec::Vec<") || d.contains("std::vec::IntoIter<") {
        let last = d.rsplit("::").next().unwrap_or("");
        if d.starts_with("std::vec::Vec::<") {
            match last {
                "new" | "with_capacity" => return Some(VecNew),
                "push" => return Some(VecPush),
                "pop" => return Some(VecPop),
                "len" => return Some(VecLen),
                "is_empty" => return Some(VecIsEmpty),
                "clear" => return Some(VecClear),
                "as_slice" | "as_mut_slice" => return Some(VecDeref),
                "precondition_check" => return Some(Unit),
                _ => {}
            }
        }
        if d == "std::vec::from_elem" {
            return model("vec_from_elem", &[0]);
        }
        if d.contains("as std::iter::IntoIterator>::into_iter") {
            return Some(if d.contains("<&") { SliceIter } else { VecIntoIter });
        }
        if d.contains("as std::iter::FromIterator<") {
            return model("vec_from_iter", &[0, 1]);
        }
        if d.contains("as std::iter::Extend<T>>::extend") {
            let t = tys(inst);
            return Some(Model("vec_extend".into(), vec![t[0].clone(), t[t.len() - 1].clone()]));
        }
        if d.contains("as std::ops::Deref>::deref") || d.contains("as std::ops::DerefMut>::deref_mut") {
            return Some(VecDeref);
        }
        if d.contains("as std::default::Default>") {
            return Some(VecNew);
        }
        if d.contains("std::vec::IntoIter<") {
            let t = tys(inst);
            return match last {
                "next" => Some(VecNext),
                "next_back" => Some(VecNextBack),
                "size_hint" => Some(SizeHint),
                "fold" => Some(Model("iter_fold".into(), vec![self_ty(inst), t[t.len() - 2].clone(), t[t.len() - 1].clone()])),
                "try_fold" => {
                    Some(Model("iter_try_fold".into(), vec![self_ty(inst), t[t.len() - 3].clone(), t[t.len() - 2].clone(), t[t.len() - 1].clone()]))
                }
                _ => None,
            };
        }
        if d.contains("PartialEq<") && (last == "eq" || last == "ne") {
            return Some(Model(format!("seq_{}", last), seq_args(inst)?));
        }
        return None;
    }
    if d.contains("as std::cmp::PartialEq<[U]>>::eq") || d.contains("<impl std::cmp::PartialEq<[U]> for [T]>::eq") {
        return Some(Model("seq_eq".into(), seq_args(inst)?));
    }
    if d.contains("for [T; N]>::into_iter") || d == "<[T; N] as std::iter::IntoIterator>::into_iter" {
        return Some(ArrIntoIter);
    }
    if d.contains("std::array::IntoIter<T, N> as ") {
        let last = d.rsplit("::").next().unwrap_or("");
        let t = tys(inst);
        return match last {
            "next" => Some(VecNext),
            "next_back" => Some(VecNextBack),
            "size_hint" => Some(SizeHint),
            "fold" => Some(Model("iter_fold".into(), vec![self_ty(inst), t[t.len() - 2].clone(), t[t.len() - 1].clone()])),
            "try_fold" => {
                Some(Model("iter_try_fold".into(), vec![self_ty(inst), t[t.len() - 3].clone(), t[t.len() - 2].clone(), t[t.len() - 1].clone()]))
            }
            _ => None,
        };
    }
    if d.contains("slice::<impl [T]>::") {
        let last = d.rsplit("::").next().unwrap_or("");
        return match last {
            "iter" => Some(SliceIter),
            "len" => Some(SliceLen),
            "is_empty" => Some(SliceIsEmpty),
            "first" => None,
            "to_vec" => Some(SliceToVec),
            "into_vec" | "box_into_vec" => Some(VecFromBox),
            _ => None,
        };
    }
    if d.contains("std::slice::Iter<'a, T> as ") || d.contains("std::slice::Iter<'_, T> as ") {
        let last = d.rsplit("::").next().unwrap_or("");
        let t = tys(inst);
        return match last {
            "next" => Some(SliceNext),
            "next_back" => Some(SliceNextBack),
            "size_hint" => Some(SizeHint),
            "clone" => Some(SetIterClone),
            "fold" => Some(Model("iter_fold".into(), vec![self_ty(inst), t[t.len() - 2].clone(), t[t.len() - 1].clone()])),
            "try_fold" => {
                Some(Model("iter_try_fold".into(), vec![self_ty(inst), t[t.len() - 3].clone(), t[t.len() - 2].clone(), t[t.len() - 1].clone()]))
            }
            "any" => Some(Model("iter_any".into(), vec![self_ty(inst), t[t.len() - 1].clone()])),
            "all" => Some(Model("iter_all".into(), vec![self_ty(inst), t[t.len() - 1].clone()])),
            _ => None,
        };
    }
    if d.contains("Argument") && d.ends_with("::new_display") {
        return model("fmt_new_arg", &[0]);
    }
    if d.contains("fmt::Formatter") && d.ends_with("::write_fmt") {
        return model("fmt_write", &[]);
    }
    if d == "std::fmt::format" || d == "alloc::fmt::format" {
        return model("fmt_format", &[]);
    }
    if d.ends_with("as std::string::ToString>::to_string") && !d.contains("for str>") {
        return model("fmt_to_string", &[0]);
    }
    if d.contains("std::fmt::Display for char>::fmt") || d == "<char as std::fmt::Display>::fmt" {
        return Some(Str("write_char_fmt"));
    }
    if let Some(n) = crate::text::classify(d, || {
        tys(inst).iter().find_map(|a| match a {
            GenericArgKind::Type(t) => range_kind(*t),
            _ => None,
        })
    }) {
        return Some(Str(n));
    }
    match d {
        "core::panicking::panic"
        | "core::panicking::panic_fmt"
        | "core::panicking::panic_nounwind"
        | "core::panicking::panic_nounwind_fmt"
        | "core::panicking::panic_display"
        | "core::panicking::panic_explicit"
        | "core::panicking::panic_str_2015"
        | "core::panicking::panic_str_literal"
        | "core::panicking::assert_failed"
        | "core::panicking::assert_failed_inner"
        | "core::panicking::unreachable_display"
        | "core::panicking::panic_bounds_check"
        | "std::rt::begin_panic"
        | "std::rt::panic_fmt"
        | "std::rt::panic_display"
        | "std::process::abort"
        | "std::rt::begin_panic_handler" => return Some(Panic("panic")),
        "std::option::expect_failed" | "core::option::expect_failed" => return Some(Panic("panic: expect on None")),
        "std::option::unwrap_failed" | "core::option::unwrap_failed" => return Some(Panic("panic: unwrap on None")),
        "std::result::unwrap_failed" | "core::result::unwrap_failed" => return Some(Panic("panic: unwrap on Err")),
        "std::ptr::read" | "core::ptr::read" => return Some(PtrRead),
        "std::ptr::write" | "core::ptr::write" => return Some(PtrWrite),
        "std::mem::forget" | "core::mem::forget" | "std::mem::drop" | "core::mem::drop" => return Some(Unit),
        "std::mem::swap" | "core::mem::swap" => return Some(Swap),
        "std::hint::black_box" | "intrinsic::black_box" => return Some(Ident),
        "std::boxed::Box::<T>::new" => return Some(BoxNew),
        "std::boxed::box_new" | "intrinsic::box_new" => return Some(BoxNew),
        "intrinsic::size_of" => return Some(TypeZst),
        "intrinsic::cold_path" => return Some(Unit),
        "intrinsic::integer_min" => return model("int_min", &[0]),
        "intrinsic::integer_max" => return model("int_max", &[0]),
        _ => {}
    }
    if d.starts_with("core::panicking::") || d.starts_with("std::panicking::") {
        return Some(Panic("panic"));
    }
    None
}
/// For a trait method the first generic argument list is that of the impl, so
/// rebuild the self type from the function's first parameter.
fn self_ty(inst: &Instance) -> GenericArgKind {
    let sig = inst.ty().kind().fn_sig().map(|s| s.skip_binder());
    let t = sig.and_then(|s| s.inputs().first().copied());
    match t {
        Some(t) => match t.kind() {
            TyKind::RigidTy(RigidTy::Ref(_, u, _)) => GenericArgKind::Type(u),
            _ => GenericArgKind::Type(t),
        },
        None => GenericArgKind::Type(Ty::usize_ty()),
    }
}
fn seq_args(inst: &Instance) -> Option<Vec<GenericArgKind>> {
    let sig = inst.ty().kind().fn_sig()?.skip_binder();
    let strip = |t: Ty| match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, u, _)) => u,
        _ => t,
    };
    let elem = |t: Ty| -> Option<Ty> {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Array(e, _)) | TyKind::RigidTy(RigidTy::Slice(e)) => Some(e),
            TyKind::RigidTy(RigidTy::Ref(_, u, _)) => match u.kind() {
                TyKind::RigidTy(RigidTy::Array(e, _)) | TyKind::RigidTy(RigidTy::Slice(e)) => Some(e),
                _ => None,
            },
            TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.iter().find_map(|x| match x {
                GenericArgKind::Type(t) => Some(*t),
                _ => None,
            }),
            _ => None,
        }
    };
    let (x, y) = (strip(sig.inputs()[0]), strip(sig.inputs()[1]));
    let a = elem(x)?;
    let b = elem(y)?;
    Some([x, y, a, b].into_iter().map(GenericArgKind::Type).collect())
}
fn range_kind(t: Ty) -> Option<u8> {
    if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
        let b = |t: &Ty| matches!(t.kind(), TyKind::RigidTy(RigidTy::Adt(d, _)) if d.name() == "std::ops::Bound");
        return if ts.len() == 2 && ts.iter().all(b) { Some(6) } else { None };
    }
    let TyKind::RigidTy(RigidTy::Adt(d, _)) = t.kind() else { return None };
    match d.name().as_str() {
        "std::ops::Range" => Some(0),
        "std::ops::RangeFrom" => Some(1),
        "std::ops::RangeTo" => Some(2),
        "std::ops::RangeFull" => Some(3),
        "std::ops::RangeToInclusive" => Some(4),
        "std::ops::RangeInclusive" => Some(5),
        _ => None,
    }
}

// ---- marker encoding --------------------------------------------------------
fn tine_map() -> Res<TineMap> {
    TINE.with(|t| t.get()).ok_or_else(|| Stop::Unsupported("marker type unknown".into()))
}
pub fn decode_tine(v: &Val) -> Res<(Key, Kind)> {
    let m = tine_map()?;
    if let Val::Agg(k, f) = v {
        if let Some(Val::Agg(b, g)) = f.first() {
            if *b == m.inf {
                return if *k == m.lower {
                    Ok((Key::Neg, Kind::LInf))
                } else if *k == m.upper {
                    Ok((Key::Pos, Kind::UInf))
                } else {
                    Err(Stop::Violation("panic: a point marker without a value is used in a marker set".into()))
                };
            }
            if let Some(Val::Tok(c)) = g.first() {
                let inc = *b == m.inc;
                let kd = if *k == m.lower {
                    if inc { Kind::LI } else { Kind::LE }
                } else if *k == m.upper {
                    if inc { Kind::UI } else { Kind::UE }
                } else if inc {
                    Kind::PI
                } else {
                    Kind::PE
                };
                return Ok((Key::C(*c), kd));
            }
        }
    }
    unsup(format!("marker value {:?}", v))
}
pub fn encode_tine(k: Key, kd: Kind) -> Res<Val> {
    let m = tine_map()?;
    let (t, inc) = match kd {
        Kind::LI => (m.lower, true),
        Kind::LE => (m.lower, false),
        Kind::UI => (m.upper, true),
        Kind::UE => (m.upper, false),
        Kind::PI => (m.point, true),
        Kind::PE => (m.point, false),
        Kind::LInf => return Ok(Val::agg(m.lower, vec![Val::agg(m.inf, vec![])])),
        Kind::UInf => return Ok(Val::agg(m.upper, vec![Val::agg(m.inf, vec![])])),
    };
    match k {
        Key::C(c) => Ok(Val::agg(t, vec![Val::agg(if inc { m.inc } else { m.exc }, vec![Val::Tok(c)])])),
        k => unsup(format!("marker {:?} at {:?}", kd, k)),
    }
}

fn as_ptr(v: &Val) -> Res<Ptr> {
    match v {
        Val::Ref(p) => Ok(p.clone()),
        v => unsup(format!("pointer expected, got {:?}", v)),
    }
}
fn tok(st: &State, v: &Val, e: &Engine) -> Res<u32> {
    match v {
        Val::Tok(c) => Ok(*c),
        Val::Ref(p) => {
            let v = st.load(p, &e.prog)?;
            tok(st, &v, e)
        }
        v => unsup(format!("element expected, got {:?}", v)),
    }
}
/// Find the marker set inside (a reference to) nested single-field structs.
fn find_set(st: &State, v: &Val, e: &Engine) -> Res<Ptr> {
    let mut p = as_ptr(v)?;
    loop {
        match st.resolve(&p, &e.prog)? {
            Val::Set(_) => return Ok(p),
            Val::Ref(q) => p = q.clone(),
            Val::Agg(_, f) if f.len() == 1 => p = p.field(0),
            v => return unsup(format!("no marker set in {:?}", v)),
        }
    }
}
fn with_set<R>(
    st: &mut State,
    p: &Ptr,
    e: &mut Engine,
    f: impl FnOnce(&mut Tree, &mut crate::line::Line, &mut Ctx) -> Res<R>,
) -> Res<R> {
    let mut t = match st.load(p, &e.prog)? {
        Val::Set(t) => t,
        v => return unsup(format!("marker set expected, got {:?}", v)),
    };
    // drop the stored handle first so that the update is in place
    st.store(p, Val::Uninit)?;
    let r = f(Rc::make_mut(&mut t), &mut st.line, &mut e.cx);
    e.stats.max_tree = e.stats.max_tree.max(t.ents.len());
    st.store(p, Val::Set(t))?;
    r
}
fn wrap_val(t: Ty, u: Option<Ty>, v: Val) -> Res<Val> {
    if Some(t) == u {
        return Ok(v);
    }
    if let TyKind::RigidTy(RigidTy::Adt(d, a)) = t.kind() {
        if u.is_none() && d.name() == "std::collections::BTreeSet" {
            let el = a.0.iter().find_map(|x| match x {
                GenericArgKind::Type(t) => Some(*t),
                _ => None,
            });
            if el.map(set_elem).unwrap_or(false) {
                return Ok(v);
            }
        }
        if d.kind() == AdtKind::Struct {
            let fs = d.variants()[0].fields();
            let mut out = vec![];
            let mut v = Some(v);
            for f in fs.iter() {
                let ft = f.ty_with_args(&a);
                if ft.layout().map(|l| l.shape().size.bytes()).unwrap_or(1) == 0 {
                    out.push(Val::unit());
                } else {
                    match v.take() {
                        Some(x) => out.push(wrap_val(ft, u, x)?),
                        None => return unsup(format!("{} has several fields", d.name())),
                    }
                }
            }
            return Ok(Val::agg(0, out));
        }
    }
    unsup(format!("cannot build a {:?}", t))
}
/// Path from a value of type `t` to the `u` inside its single sized fields.
fn peel_path(t: Ty, u: Option<Ty>) -> Res<Vec<u32>> {
    if Some(t) == u {
        return Ok(vec![]);
    }
    if let TyKind::RigidTy(RigidTy::Adt(d, a)) = t.kind() {
        if d.kind() == AdtKind::Struct {
            for (i, f) in d.variants()[0].fields().iter().enumerate() {
                let ft = f.ty_with_args(&a);
                if ft.layout().map(|l| l.shape().size.bytes()).unwrap_or(1) != 0 {
                    let mut r = vec![i as u32];
                    r.extend(peel_path(ft, u)?);
                    return Ok(r);
                }
            }
        }
    }
    unsup(format!("cannot open a {:?}", t))
}
fn text(v: &Val) -> String {
    match v {
        Val::Str(ps) => ps
            .iter()
            .map(|p| match p {
                Piece::Lit(s) => s.to_string(),
                Piece::Disp(c) => format!("<{}>", c),
                Piece::Tail(c) => format!("<{} after its sign>", c),
            })
            .collect(),
        _ => String::new(),
    }
}

pub fn exec(b: &B, st: &mut State, a: Vec<Val>, e: &mut Engine) -> Res<Val> {
    use B::*;
    match b {
        Panic(m) => {
            let extra: Vec<String> = a.iter().map(text).filter(|s| !s.is_empty()).collect();
            Err(Stop::Violation(format!("{}{}{}", m, if extra.is_empty() { "" } else { ": " }, extra.join(" "))))
        }
        Unit => Ok(Val::unit()),
        Ident => Ok(a.into_iter().next().unwrap_or(Val::unit())),
        AnyTok => {
            let c = st.line.place_between(Key::Neg, Key::Pos, &mut e.cx)?;
            Ok(Val::Tok(c))
        }
        AnyOver => {
            let c = tok(st, &a[0], e)?;
            Ok(Val::Tok(st.line.place_between(Key::C(c), Key::Pos, &mut e.cx)?))
        }
        AnyUnder => {
            let c = tok(st, &a[0], e)?;
            Ok(Val::Tok(st.line.place_between(Key::Neg, Key::C(c), &mut e.cx)?))
        }
        AnyBool => Ok(Val::bool(e.cx.choose(2)? == 1)),
        AnyBelow => match a[0] {
            Val::Int(n) => Ok(Val::Int(e.cx.choose(n as usize)? as u128)),
            _ => unsup("any_below"),
        },
        Assume => match a[0] {
            Val::Int(1) => Ok(Val::unit()),
            Val::Int(_) => Err(Stop::Prune),
            _ => unsup("assume"),
        },
        Check => {
            let l = text(&a[1]);
            if st.steps.is_some() {
                return Ok(Val::unit());
            }
            *e.stats.checks.entry(l.clone()).or_insert(0) += 1;
            match a[0] {
                Val::Int(1) => Ok(Val::unit()),
                Val::Int(_) => Err(Stop::Violation(l)),
                ref v => unsup(format!("check of {:?}", v)),
            }
        }
        Reach => {
            let l = text(&a[0]);
            *e.stats.reached.entry(l).or_insert(0) += 1;
            Ok(Val::unit())
        }
        TokEq | TokNe | TokLt | TokLe | TokGt | TokGe | TokCmp | TokPartialCmp => {
            use std::cmp::Ordering::*;
            let x = tok(st, &a[0], e)?;
            let y = tok(st, &a[1], e)?;
            let c = st.line.cmp(x, y);
            Ok(match b {
                TokEq => Val::bool(c == Equal),
                TokNe => Val::bool(c != Equal),
                TokLt => Val::bool(c == Less),
                TokLe => Val::bool(c != Greater),
                TokGt => Val::bool(c == Greater),
                TokGe => Val::bool(c != Less),
                TokCmp => ordering(c),
                _ => Val::some(ordering(c)),
            })
        }
        TokMax | TokMin => {
            let x = tok(st, &a[0], e)?;
            let y = tok(st, &a[1], e)?;
            let less = st.line.cmp(x, y) == std::cmp::Ordering::Less;
            Ok(Val::Tok(if less == (*b == TokMax) { y } else { x }))
        }
        TokClone => Ok(Val::Tok(tok(st, &a[0], e)?)),
        Pred | Succ => {
            let c = tok(st, &a[0], e)?;
            let next = st.line.next;
            let r = if *b == Pred { st.line.pred(c, &mut e.cx)? } else { st.line.succ(c, &mut e.cx)? };
            if st.steps.is_some() {
                *e.stats.checks.entry("steps away from given values are bounded".into()).or_insert(0) += 1;
            }
            if let Some(r) = r {
                st.step(c, r, r >= next)?;
            }
            Ok(Val::opt(r.map(Val::Tok)))
        }
        CountSteps => {
            st.steps = Some(vec![]);
            Ok(Val::unit())
        }
        Discrete => {
            st.line.fin = true;
            // a type whose range may be as small as one value: nothing is known
            for g in &mut st.line.gaps {
                *g = crate::line::Gap::Any;
            }
            if st.line.cls.is_empty() {
                // at least one value lies between the two ends
                st.line.gaps = vec![crate::line::Gap::Two];
            }
            Ok(Val::unit())
        }
        AnySet(w) => {
            let canon = matches!(a[0], Val::Int(1));
            let (t, _) = WRAPS.with(|x| x.borrow()[*w as usize]);
            let mut tree = Tree::any(canon, &mut e.cx)?;
            tree.spell(&mut st.line, &mut e.cx)?;
            wrap_val(t, None, Val::Set(Rc::new(tree)))
        }
        SetWith(w) => {
            let [m, c, v] = [0, 1, 2].map(|i: usize| matches!(a[i], Val::Int(1)));
            let (t, _) = WRAPS.with(|x| x.borrow()[*w as usize]);
            if m && v {
                return Err(Stop::Prune);
            }
            let mut tree = Tree::new();
            // canonical and without values: no markers at all
            if !(c && v) {
                tree.lazy = Some((m, c, v));
            }
            wrap_val(t, None, Val::Set(Rc::new(tree)))
        }
        SetIsCanon => {
            let p = find_set(st, &a[0], e)?;
            let r = with_set(st, &p, e, |t, l, cx| t.canonical(l, cx))?;
            Ok(Val::bool(r.is_ok()))
        }
        SetIsVoid => {
            let p = find_set(st, &a[0], e)?;
            Ok(Val::bool(with_set(st, &p, e, |t, _, _| Ok(t.void()))?))
        }
        SetTag(n) => {
            let p = find_set(st, &a[0], e)?;
            let n = *n;
            with_set(st, &p, e, |t, _, _| {
                t.tag = n;
                Ok(())
            })?;
            Ok(Val::unit())
        }
        SetsTagged => {
            let mut k = [0u8; 2];
            for i in 0..2 {
                let p = find_set(st, &a[i], e)?;
                k[i] = with_set(st, &p, e, |t, _, _| Ok(t.tag))?;
            }
            Ok(Val::bool(k == [1, 2] || k == [2, 1]))
        }
        SetPlain => {
            let p = find_set(st, &a[0], e)?;
            Ok(Val::bool(with_set(st, &p, e, |t, _, _| {
                Ok(t.lazy.is_none() && t.zones.iter().all(|z| *z == crate::tree::Zone::Empty))
            })?))
        }
        SetTagOf => {
            let p = find_set(st, &a[0], e)?;
            let t = with_set(st, &p, e, |t, _, _| Ok(t.tag))?;
            st.blur |= t == crate::tree::LOST;
            Ok(Val::Int(if t < 3 { t as u128 } else { 0 }))
        }
        SetsMeet => {
            let mut ts = vec![];
            for x in &a[..2] {
                let p = find_set(st, x, e)?;
                match st.load(&p, &e.prog)? {
                    Val::Set(t) => ts.push((*t).clone()),
                    v => return unsup(format!("marker set expected, got {:?}", v)),
                }
            }
            st.blur |= ts.iter().any(|t| t.tag == crate::tree::LOST);
            if ts.iter().any(|t| t.lazy.is_some()) {
                if ts.iter().any(|t| t.lazy.is_none()) && !st.ghosts.iter().all(|g| g.0.is_uninit()) {
                    st.blur = true;
                }
                return Ok(Val::bool(false));
            }
            if !st.ghosts.iter().all(|g| g.0.is_uninit()) {
                st.blur = true;
            }
            let (x, y) = ts.split_at_mut(1);
            Ok(Val::bool(x[0].meets(&mut y[0], &mut st.line, &mut e.cx)?))
        }
        Blur => {
            st.blur = true;
            Ok(Val::unit())
        }
        GhostPut => {
            let Val::Int(k) = a[0] else { return unsup("ghost") };
            let v = st.load(&as_ptr(&a[1])?, &e.prog)?;
            let g = &mut st.ghosts[k as usize - 1];
            *g = (v, !g.0.is_uninit());
            Ok(Val::unit())
        }
        GhostGet => {
            let Val::Int(k) = a[0] else { return unsup("ghost") };
            Ok(st.ghosts[k as usize - 1].0.clone())
        }
        GhostHas => {
            let Val::Int(k) = a[0] else { return unsup("ghost") };
            Ok(Val::bool(!st.ghosts[k as usize - 1].0.is_uninit()))
        }
        GhostMore => {
            let Val::Int(k) = a[0] else { return unsup("ghost") };
            Ok(Val::bool(st.ghosts[k as usize - 1].1))
        }
        SetNamed(w) => {
            let Val::Int(n) = a[0] else { return unsup("name") };
            let (t, _) = WRAPS.with(|x| x.borrow()[*w as usize]);
            let mut tree = Tree::new();
            tree.lazy = Some((false, false, false));
            tree.tag = 3 + n as u8;
            wrap_val(t, None, Val::Set(Rc::new(tree)))
        }
        SetName => {
            let p = find_set(st, &a[0], e)?;
            match st.load(&p, &e.prog)? {
                Val::Set(t) if t.tag >= 3 && t.tag != crate::tree::LOST => Ok(Val::Int(t.tag as u128 - 3)),
                Val::Set(_) => Ok(Val::Int(255)),
                v => unsup(format!("marker set expected, got {:?}", v)),
            }
        }
        LensTaken => Ok(Val::bool(st.sized)),
        Undecided => unsup(text(&a[0])),
        SetWitness => {
            st.line.wit = Some(tok(st, &a[0], e)?);
            Ok(Val::unit())
        }
        Witness => match st.line.wit {
            Some(c) => Ok(Val::Tok(c)),
            None => unsup("no witness"),
        },
        IsDiscrete => Ok(Val::bool(st.line.fin)),
        Apart2 => {
            let x = tok(st, &a[0], e)?;
            let y = tok(st, &a[1], e)?;
            let r = st.line.dist2(Key::C(x), Key::C(y), &mut e.cx)?;
            Ok(Val::bool(r))
        }
        OffEnd(max) => {
            let x = tok(st, &a[0], e)?;
            let r = if *max { st.line.dist2(Key::C(x), Key::Pos, &mut e.cx)? } else { st.line.dist2(Key::Neg, Key::C(x), &mut e.cx)? };
            Ok(Val::bool(r))
        }
        Wrap(w, true) => {
            let (t, u) = WRAPS.with(|x| x.borrow()[*w as usize]);
            wrap_val(t, u, a.into_iter().next().unwrap())
        }
        Wrap(w, false) => {
            let (t, u) = WRAPS.with(|x| x.borrow()[*w as usize]);
            let mut p = as_ptr(&a[0])?;
            for i in peel_path(t, u)? {
                p = p.field(i);
            }
            Ok(Val::Ref(p))
        }
        SetMember => {
            let p = find_set(st, &a[0], e)?;
            let c = tok(st, &a[1], e)?;
            let r = with_set(st, &p, e, |t, l, cx| t.member(c, l, cx))?;
            Ok(Val::bool(r))
        }
        SetWf => {
            let p = find_set(st, &a[0], e)?;
            let r = with_set(st, &p, e, |t, _, _| Ok(t.wf()))?;
            *e.stats.checks.entry("well-formed".into()).or_insert(0) += 1;
            match r {
                Ok(()) => Ok(Val::unit()),
                Err(m) => {
                    let _ = m;
                    Err(Stop::Violation(format!("{}: boundaries do not alternate", text(&a[1]))))
                }
            }
        }
        SetCanon => {
            let p = find_set(st, &a[0], e)?;
            let r = with_set(st, &p, e, |t, l, cx| t.canonical(l, cx))?;
            *e.stats.checks.entry("canonical".into()).or_insert(0) += 1;
            match r {
                Ok(()) => Ok(Val::unit()),
                Err(m) => {
                    let m = if m.contains("inclusive") {
                        "inclusive boundary"
                    } else if m.contains("no value") || m.contains("possibly empty") {
                        "piece without values"
                    } else if m.contains("uncanonical") {
                        "uncanonical boundary"
                    } else {
                        "boundaries do not alternate"
                    };
                    Err(Stop::Violation(format!("{}: not canonical: {}", text(&a[1]), m)))
                }
            }
        }
        SetExplicit => {
            // keep only sets with at most n markers
            let p = find_set(st, &a[0], e)?;
            let n = with_set(st, &p, e, |t, l, cx| t.len3(l, cx))?;
            match a[1] {
                Val::Int(k) if n as u128 <= k => Ok(Val::unit()),
                _ => Err(Stop::Prune),
            }
        }
        AnyInt(t) => {
            let s = st.syms.len() as u32;
            st.syms.push(range(*t));
            Ok(Val::Sym(s, 0))
        }
        IntIs(t) => {
            // int_is(&x, &y, k): x == y + k, decided symbolically
            let x = st.load(&as_ptr(&a[0])?, &e.prog)?;
            let y = st.load(&as_ptr(&a[1])?, &e.prog)?;
            let k = match &a[2] {
                Val::Int(k) => sext(*k, IntT { bits: 32, signed: true }),
                _ => return unsup("int_is"),
            };
            let norm = |st: &State, v: &Val| -> Res<(Option<u32>, i128)> {
                match v {
                    Val::Int(i) => Ok((None, pic(*i, *t))),
                    Val::Sym(s, o) => {
                        let (lo, hi) = st.syms[*s as usize];
                        if lo == hi {
                            Ok((None, lo + o))
                        } else {
                            Ok((Some(*s), *o))
                        }
                    }
                    v => unsup(format!("int_is on {:?}", v)),
                }
            };
            let (s1, o1) = norm(st, &x)?;
            let (s2, o2) = norm(st, &y)?;
            if s1 == s2 {
                return Ok(Val::bool(o2.checked_add(k) == Some(o1)));
            }
            unsup("int_is on unrelated integers")
        }
        VecMore => {
            let p = as_ptr(&a[0])?;
            match st.load(&p, &e.prog)? {
                Val::Vec(mut v) => {
                    Rc::make_mut(&mut v).more = true;
                    st.store(&p, Val::Vec(v))?;
                    Ok(Val::unit())
                }
                v => unsup(format!("vec_more of {:?}", v)),
            }
        }
        VecIsSum | VecBefore | VecAfter => match st.load(&as_ptr(&a[0])?, &e.prog)? {
            Val::Vec(v) => Ok(Val::bool(match (b, v.sum) {
                (VecIsSum, s) => s.is_some(),
                (VecBefore, Some(s)) => s.0,
                (_, Some(s)) => s.1,
                _ => return unsup("vector is not summarised"),
            })),
            v => unsup(format!("summary of {:?}", v)),
        },
        VecPut => {
            let p = as_ptr(&a[0])?;
            let [m, n] = [1, 2].map(|i: usize| matches!(a[i], Val::Int(1)));
            let elems = match &a[3] {
                Val::Agg(0, _) => vec![],
                Val::Agg(1, f) => vec![f[0].clone()],
                v => return unsup(format!("element {:?}", v)),
            };
            st.store(&p, Val::Vec(Rc::new(AVec { elems, more: true, sum: Some((m, n)) })))?;
            Ok(Val::unit())
        }
        VecListed => match st.load(&as_ptr(&a[0])?, &e.prog)? {
            Val::Vec(v) => Ok(Val::Int(v.elems.len() as u128)),
            v => unsup(format!("length of {:?}", v)),
        },
        VecAt => {
            let Val::Int(i) = a[1] else { return unsup("index") };
            Ok(Val::Ref(as_ptr(&a[0])?.field(i as u32)))
        }
        VecHasMore => match st.load(&as_ptr(&a[0])?, &e.prog)? {
            Val::Vec(v) => Ok(Val::bool(v.more)),
            v => unsup(format!("vec_has_more of {:?}", v)),
        },
        Same => {
            let x = st.load(&as_ptr(&a[0])?, &e.prog)?;
            let y = st.load(&as_ptr(&a[1])?, &e.prog)?;
            Ok(Val::bool(same(st, &x, &y, e)?))
        }

        // ---- ordered sets ----
        SetNew => Ok(Val::Set(Rc::new(Tree::new()))),
        SetClone => {
            let p = as_ptr(&a[0])?;
            st.load(&p, &e.prog)
        }
        SetIsEmpty => {
            let p = as_ptr(&a[0])?;
            let r = with_set(st, &p, e, |t, l, cx| t.any_between(None, None, l, cx))?;
            Ok(Val::bool(!r))
        }
        SetLen => {
            st.sized = true;
            let p = as_ptr(&a[0])?;
            let n = with_set(st, &p, e, |t, l, cx| t.len3(l, cx))?;
            let exact = match st.load(&p, &e.prog)? {
                Val::Set(t) => t.zones.iter().all(|z| *z == crate::tree::Zone::Empty),
                _ => false,
            };
            Ok(if exact || n < 3 { Val::Int(n as u128) } else { Val::AtLeast(3) })
        }
        SetIterLen => {
            st.sized = true;
            let it = match st.load(&as_ptr(&a[0])?, &e.prog)? {
                Val::SetIter(i) => i,
                v => return unsup(format!("iterator {:?}", v)),
            };
            if it.ends != (false, false) {
                return unsup("length of a range that includes an end");
            }
            let mut go = |t: &mut Tree, l: &mut crate::line::Line, cx: &mut Ctx| -> Res<(usize, bool)> {
                let exact = t.zones.iter().all(|z| *z == crate::tree::Zone::Empty);
                let (mut n, mut at) = (0, it.front);
                while exact || n < 3 {
                    match t.next_after(at, it.back, l, cx)? {
                        None => return Ok((n, true)),
                        Some(i) => at = Some(t.ents[i].0),
                    }
                    n += 1;
                }
                Ok((n, false))
            };
            let mut now = it.clone();
            let (n, exact) = match &mut Rc::make_mut(&mut now).src {
                SetSrc::Borrow(p) => with_set(st, &p.clone(), e, &mut go)?,
                SetSrc::Owned(t) => go(Rc::make_mut(t), &mut st.line, &mut e.cx)?,
            };
            st.store(&as_ptr(&a[0])?, Val::SetIter(now))?;
            Ok(if exact { Val::Int(n as u128) } else { Val::AtLeast(3) })
        }
        // a `NonZero` is represented by its number
        NonZero(false) => Ok(a[0].clone()),
        NonZero(true) => match &a[0] {
            Val::Int(0) => Ok(Val::none()),
            Val::Int(_) => Ok(Val::some(a[0].clone())),
            Val::AtLeast(n) if *n > 0 => Ok(Val::some(a[0].clone())),
            v => unsup(format!("NonZero of {:?}", v)),
        },
        SetIter => {
            let p = as_ptr(&a[0])?;
            Ok(Val::SetIter(Rc::new(crate::val::SetIter { src: SetSrc::Borrow(p), front: None, back: None, ends: (false, false) })))
        }
        SetIntoIter => match &a[0] {
            Val::Set(t) => Ok(Val::SetIter(Rc::new(crate::val::SetIter { src: SetSrc::Owned(t.clone()), front: None, back: None, ends: (false, false) }))),
            v => unsup(format!("into_iter of {:?}", v)),
        },
        SetIterClone => st.load(&as_ptr(&a[0])?, &e.prog),
        SetRange(kind) => {
            let p = as_ptr(&a[0])?;
            let rv = match &a[1] {
                Val::Agg(_, f) => f.clone(),
                v => return unsup(format!("range {:?}", v)),
            };
            let get = |st: &State, v: &Val| -> Res<Key> {
                let v = match v {
                    Val::Ref(q) => st.load(q, &e.prog)?,
                    v => v.clone(),
                };
                Ok(decode_tine(&v)?.0)
            };
            let side = |st: &State, v: &Val| -> Res<(Option<Key>, bool)> {
                match v {
                    Val::Agg(2, _) => Ok((None, false)),
                    Val::Agg(k, f) => Ok((Some(get(st, &f[0])?), *k == 0)),
                    v => unsup(format!("range end {:?}", v)),
                }
            };
            // each end with whether it is included
            let ((lo, loi), (hi, hii)) = match kind {
                0 => ((Some(get(st, &rv[0])?), true), (Some(get(st, &rv[1])?), false)),
                1 => ((Some(get(st, &rv[0])?), true), (None, false)),
                2 => ((None, false), (Some(get(st, &rv[0])?), false)),
                3 => ((None, false), (None, false)),
                4 => ((None, false), (Some(get(st, &rv[0])?), true)),
                5 => ((Some(get(st, &rv[0])?), true), (Some(get(st, &rv[1])?), true)),
                _ => (side(st, &rv[0])?, side(st, &rv[1])?),
            };
            if let (Some(l), Some(h)) = (lo, hi) {
                if st.line.lt(h, l) {
                    return Err(Stop::Violation("panic: range start is greater than range end in BTreeSet".into()));
                }
                if l == h && !loi && !hii {
                    return Err(Stop::Violation("panic: range start and end are equal and excluded in BTreeSet".into()));
                }
            }
            Ok(Val::SetIter(Rc::new(crate::val::SetIter { src: SetSrc::Borrow(p), front: lo, back: hi, ends: (loi, hii) })))
        }
        SetNext(owned) | SetNextBack(owned) => {
            let fwd = matches!(b, SetNext(_));
            // `last`, `min` and `max` take the iterator by value
            let (ip, mut it) = match &a[0] {
                Val::Ref(p) => match st.load(p, &e.prog)? {
                    Val::SetIter(i) => (Some(p.clone()), i),
                    v => return unsup(format!("iterator {:?}", v)),
                },
                Val::SetIter(i) => (None, i.clone()),
                v => return unsup(format!("iterator {:?}", v)),
            };
            if let Some(p) = &ip {
                st.store(p, Val::Uninit)?;
            }
            let im = Rc::make_mut(&mut it);
            let (front, back) = (im.front, im.back);
            let mut ends = im.ends;
            let mut go = |t: &mut Tree, l: &mut crate::line::Line, cx: &mut Ctx| -> Res<Option<(Key, Kind)>> {
                let at = |t: &mut Tree, k: Key, l: &mut crate::line::Line, cx: &mut Ctx| -> Res<Option<(Key, Kind)>> {
                    let i = t.cut(k, l, cx)?;
                    Ok(t.ents[i].1.map(|kd| (k, kd)))
                };
                // an included end comes before what lies between the ends, on
                // the side it is on, and after it on the other
                let one = front.is_some() && front == back;
                if one && !(ends.0 && ends.1) {
                    ends = (false, false);
                }
                let near = if fwd { ends.0 } else { ends.1 };
                if near {
                    let k = if fwd { front } else { back }.unwrap();
                    if one {
                        ends = (false, false);
                    } else if fwd {
                        ends.0 = false;
                    } else {
                        ends.1 = false;
                    }
                    if let Some(x) = at(t, k, l, cx)? {
                        return Ok(Some(x));
                    }
                }
                let i = if fwd { t.next_after(front, back, l, cx)? } else { t.prev_before(front, back, l, cx)? };
                if let Some(i) = i {
                    return Ok(Some((t.ents[i].0, t.ents[i].1.unwrap())));
                }
                let far = if fwd { ends.1 } else { ends.0 };
                if far {
                    let k = if fwd { back } else { front }.unwrap();
                    ends = (false, false);
                    return at(t, k, l, cx);
                }
                Ok(None)
            };
            let r = match &mut im.src {
                SetSrc::Borrow(p) => {
                    let p = p.clone();
                    with_set(st, &p, e, &mut go)?
                }
                SetSrc::Owned(t) => go(Rc::make_mut(t), &mut st.line, &mut e.cx)?,
            };
            im.ends = ends;
            let out = match r {
                None => {
                    // exhausted: nothing lies between the two ends any more
                    match (im.front, im.back) {
                        (None, None) => {
                            im.front = Some(Key::Pos);
                        }
                        _ => {
                            if fwd {
                                im.front = Some(im.back.unwrap_or(Key::Pos));
                            } else {
                                im.back = Some(im.front.unwrap_or(Key::Neg));
                            }
                        }
                    }
                    Val::none()
                }
                Some((k, kd)) => {
                    if fwd {
                        im.front = Some(k);
                    } else {
                        im.back = Some(k);
                    }
                    let v = encode_tine(k, kd)?;
                    Val::some(if *owned { v } else { Val::Ref(st.alloc(v)) })
                }
            };
            if let Some(p) = &ip {
                st.store(p, Val::SetIter(it))?;
            }
            Ok(out)
        }
        SetInsert(keep) => {
            let p = as_ptr(&a[0])?;
            let (k, kd) = decode_tine(&a[1])?;
            let old = with_set(st, &p, e, |t, l, cx| t.put(k, Some(kd), *keep, l, cx))?;
            if *keep {
                Ok(Val::bool(old.is_none()))
            } else {
                Ok(Val::opt(match old {
                    None => None,
                    Some(o) => Some(encode_tine(k, o)?),
                }))
            }
        }
        SetTake | SetRemove => {
            let p = as_ptr(&a[0])?;
            let (k, _) = decode_tine(&st.load(&as_ptr(&a[1])?, &e.prog)?)?;
            let old = with_set(st, &p, e, |t, l, cx| t.put(k, None, false, l, cx))?;
            if *b == SetRemove {
                Ok(Val::bool(old.is_some()))
            } else {
                Ok(Val::opt(match old {
                    None => None,
                    Some(o) => Some(encode_tine(k, o)?),
                }))
            }
        }
        SetGet | SetContains => {
            let p = as_ptr(&a[0])?;
            let (k, _) = decode_tine(&st.load(&as_ptr(&a[1])?, &e.prog)?)?;
            let old = with_set(st, &p, e, |t, l, cx| {
                let i = t.cut(k, l, cx)?;
                Ok(t.ents[i].1)
            })?;
            if *b == SetContains {
                Ok(Val::bool(old.is_some()))
            } else {
                Ok(Val::opt(match old {
                    None => None,
                    Some(o) => Some(Val::Ref(st.alloc(encode_tine(k, o)?))),
                }))
            }
        }
        SetFirst | SetLast | SetPopFirst | SetPopLast => {
            let p = as_ptr(&a[0])?;
            let first = matches!(b, SetFirst | SetPopFirst);
            let pop = matches!(b, SetPopFirst | SetPopLast);
            let r = with_set(st, &p, e, |t, l, cx| {
                let i = if first { t.next_after(None, None, l, cx)? } else { t.prev_before(None, None, l, cx)? };
                Ok(i.map(|i| {
                    let r = (t.ents[i].0, t.ents[i].1.unwrap());
                    if pop {
                        t.ents[i].1 = None;
                        t.tag = 0;
                    }
                    r
                }))
            })?;
            Ok(match r {
                None => Val::none(),
                Some((k, kd)) => {
                    let v = encode_tine(k, kd)?;
                    Val::some(if pop { v } else { Val::Ref(st.alloc(v)) })
                }
            })
        }
        SetSplitOff => {
            let p = as_ptr(&a[0])?;
            let (k, _) = decode_tine(&st.load(&as_ptr(&a[1])?, &e.prog)?)?;
            let r = with_set(st, &p, e, |t, l, cx| t.split_off(k, l, cx))?;
            Ok(Val::Set(Rc::new(r)))
        }
        SetAppend => {
            let p = as_ptr(&a[0])?;
            let q = as_ptr(&a[1])?;
            let mut o = match st.load(&q, &e.prog)? {
                Val::Set(t) => (*t).clone(),
                v => return unsup(format!("append of {:?}", v)),
            };
            with_set(st, &p, e, |t, l, cx| t.append(&mut o, l, cx))?;
            st.store(&q, Val::Set(Rc::new(o)))?;
            Ok(Val::unit())
        }
        SetClear => {
            let p = as_ptr(&a[0])?;
            st.store(&p, Val::Set(Rc::new(Tree::new())))?;
            Ok(Val::unit())
        }

        // ---- vectors ----
        VecNew => Ok(Val::Vec(Rc::new(AVec { elems: vec![], more: false, sum: None }))),
        VecPush => {
            let p = as_ptr(&a[0])?;
            match st.load(&p, &e.prog)? {
                Val::Vec(mut v) => {
                    st.store(&p, Val::Uninit)?;
                    if v.sum.is_some() {
                        return unsup("push to a summarised vector");
                    }
                    if !v.more {
                        if v.elems.len() >= 64 {
                            return unsup("long vector");
                        }
                        Rc::make_mut(&mut v).elems.push(a[1].clone());
                    }
                    st.store(&p, Val::Vec(v))?;
                    Ok(Val::unit())
                }
                v => unsup(format!("push to {:?}", v)),
            }
        }
        VecPop => {
            let p = as_ptr(&a[0])?;
            match st.load(&p, &e.prog)? {
                Val::Vec(mut v) if !v.more => {
                    let r = Rc::make_mut(&mut v).elems.pop();
                    st.store(&p, Val::Vec(v))?;
                    Ok(Val::opt(r))
                }
                v => unsup(format!("pop of {:?}", v)),
            }
        }
        VecLen | VecIsEmpty => match st.load(&as_ptr(&a[0])?, &e.prog)? {
            Val::Vec(v) if v.sum.is_some() => unsup("length of a summarised vector"),
            Val::Vec(v) => {
                let n = v.elems.len() as u128;
                Ok(if *b == VecIsEmpty {
                    Val::bool(n == 0 && !v.more)
                } else if v.more {
                    Val::AtLeast(n + 1)
                } else {
                    Val::Int(n)
                })
            }
            v => unsup(format!("length of {:?}", v)),
        },
        SeqLen => match &a[0] {
            Val::Slice(_, x, y) => Ok(Val::Int((y - x) as u128)),
            Val::Ref(p) => match st.load(p, &e.prog)? {
                Val::Vec(v) if v.sum.is_some() => unsup("length of a summarised vector"),
                Val::Vec(v) if v.more => Ok(Val::AtLeast(v.elems.len() as u128 + 1)),
                Val::Vec(v) => Ok(Val::Int(v.elems.len() as u128)),
                Val::Agg(_, f) => Ok(Val::Int(f.len() as u128)),
                Val::Ref(_) | Val::Slice(..) => {
                    let i = st.load(p, &e.prog)?;
                    return exec(b, st, vec![i], e);
                }
                v => unsup(format!("length of {:?}", v)),
            },
            v => unsup(format!("length of {:?}", v)),
        },
        SeqAt => {
            let Val::Int(i) = a[1] else { return unsup("index") };
            match &a[0] {
                Val::Slice(p, x, _) => Ok(Val::Ref(p.field(x + i as u32))),
                Val::Ref(p) => match st.load(p, &e.prog)? {
                    v @ (Val::Ref(_) | Val::Slice(..)) => {
                        let k = a[1].clone();
                        exec(b, st, vec![v, k], e)
                    }
                    _ => Ok(Val::Ref(p.field(i as u32))),
                },
                v => unsup(format!("index of {:?}", v)),
            }
        }
        VecClear => {
            st.store(&as_ptr(&a[0])?, Val::Vec(Rc::new(AVec { elems: vec![], more: false, sum: None })))?;
            Ok(Val::unit())
        }
        VecDeref => Ok(a[0].clone()),
        VecIntoIter => match &a[0] {
            Val::Vec(v) if !v.more => Ok(Val::VecIter(v.clone(), 0, v.elems.len() as u32)),
            v => unsup(format!("into_iter of {:?}", v)),
        },
        ArrIntoIter => match &a[0] {
            Val::Agg(_, f) => Ok(Val::VecIter(Rc::new(AVec { elems: (**f).clone(), more: false, sum: None }), 0, f.len() as u32)),
            v => unsup(format!("into_iter of {:?}", v)),
        },
        VecNext | VecNextBack => {
            let p = as_ptr(&a[0])?;
            match st.load(&p, &e.prog)? {
                Val::VecIter(v, i, n) => {
                    if i == n {
                        return Ok(Val::none());
                    }
                    let (x, i, n) = if *b == VecNext { (i, i + 1, n) } else { (n - 1, i, n - 1) };
                    let r = v.elems[x as usize].clone();
                    st.store(&p, Val::VecIter(v, i, n))?;
                    Ok(Val::some(r))
                }
                v => unsup(format!("next of {:?}", v)),
            }
        }
        BoxUninit => {
            let p = st.alloc(Val::Uninit);
            Ok(Val::Ref(p))
        }
        VecFromUninit => {
            let p = as_ptr(&a[0])?;
            match st.load(&p, &e.prog)? {
                Val::Agg(_, f) => Ok(Val::Vec(Rc::new(AVec { elems: (*f).clone(), more: false, sum: None }))),
                v => unsup(format!("vector from {:?}", v)),
            }
        }
        VecFromBox => {
            let p = as_ptr(&a[0])?;
            match st.load(&p, &e.prog)? {
                Val::Agg(_, f) => Ok(Val::Vec(Rc::new(AVec { elems: (*f).clone(), more: false, sum: None }))),
                v => unsup(format!("vector from {:?}", v)),
            }
        }
        SliceIter => {
            let (p, i, n) = st.slice_of(&a[0], &e.prog)?;
            Ok(Val::SliceIter(p, i, n))
        }
        SliceNext | SliceNextBack => {
            let p = as_ptr(&a[0])?;
            match st.load(&p, &e.prog)? {
                Val::SliceIter(q, i, n) => {
                    if i == n {
                        return Ok(Val::none());
                    }
                    let (x, i, n) = if *b == SliceNext { (i, i + 1, n) } else { (n - 1, i, n - 1) };
                    let r = Val::Ref(q.field(x));
                    st.store(&p, Val::SliceIter(q, i, n))?;
                    Ok(Val::some(r))
                }
                v => unsup(format!("next of {:?}", v)),
            }
        }
        SliceLen | SliceIsEmpty => {
            let (_, i, n) = st.slice_of(&a[0], &e.prog)?;
            Ok(if *b == SliceLen { Val::Int((n - i) as u128) } else { Val::bool(n == i) })
        }
        SliceGet => unsup("slice get"),
        SliceToVec => unsup("to_vec"),
        BoxNew => {
            let p = st.alloc(a.into_iter().next().unwrap());
            Ok(Val::Ref(p))
        }
        PtrRead => st.load(&as_ptr(&a[0])?, &e.prog),
        PtrWrite => {
            st.store(&as_ptr(&a[0])?, a[1].clone())?;
            Ok(Val::unit())
        }
        Swap => {
            let (p, q) = (as_ptr(&a[0])?, as_ptr(&a[1])?);
            let x = st.load(&p, &e.prog)?;
            let y = st.load(&q, &e.prog)?;
            st.store(&p, y)?;
            st.store(&q, x)?;
            Ok(Val::unit())
        }
        SizeHint => Ok(Val::agg(0, vec![Val::Int(0), Val::none()])),
        TypeZst => unsup("size_of"),
        Str(n) => crate::text::exec(n, st, a, e),
        Model(..) => unreachable!(),
    }
}

/// Structural equality of two abstract values, when it can be decided.
fn same(st: &State, x: &Val, y: &Val, e: &Engine) -> Res<bool> {
    match (x, y) {
        (Val::Tok(a), Val::Tok(b)) => Ok(a == b),
        (Val::Int(a), Val::Int(b)) => Ok(a == b),
        (Val::Agg(k, f), Val::Agg(l, g)) => {
            if k != l || f.len() != g.len() {
                return Ok(false);
            }
            for (a, b) in f.iter().zip(g.iter()) {
                if !same(st, a, b, e)? {
                    return Ok(false);
                }
            }
            Ok(true)
        }
        (Val::Ref(p), Val::Ref(q)) => {
            let a = st.load(p, &e.prog)?;
            let b = st.load(q, &e.prog)?;
            same(st, &a, &b, e)
        }
        (Val::Set(a), Val::Set(b)) => {
            if Rc::ptr_eq(a, b) {
                return Ok(true);
            }
            if a.lazy.is_some() || b.lazy.is_some() {
                return unsup("equality of summarised marker sets");
            }
            if a.zones.iter().chain(b.zones.iter()).all(|z| *z == crate::tree::Zone::Empty) {
                let f = |t: &Tree| t.ents.iter().filter(|e| e.1.is_some()).cloned().collect::<Vec<_>>();
                return Ok(f(a) == f(b));
            }
            unsup("equality of unbounded marker sets")
        }
        (Val::Sym(a, o), Val::Sym(b, p)) if a == b => Ok(o == p),
        (a, b) => unsup(format!("equality of {:?} and {:?}", a, b)),
    }
}
