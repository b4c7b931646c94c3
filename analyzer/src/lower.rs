//! Lowering of the compiler's monomorphised MIR into a compact form, one
//! function instance at a time and on demand.
use crate::builtins::{classify, B};
use crate::val::*;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::*;
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Pj {
    Deref,
    Field(u32),
    Index(u32),
    CIndex(u64, bool),
    Sub(u64, u64, bool),
}
#[derive(Clone, Debug)]
pub struct Pl {
    pub local: u32,
    pub proj: Vec<Pj>,
}
#[derive(Clone, Debug)]
pub enum Op {
    Copy(Pl),
    Const(Val),
    /// contains a TokConst
    TConst(Val),
    Bad(String),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct IntT {
    pub bits: u32,
    pub signed: bool,
}
#[derive(Clone, Debug)]
pub enum Rv {
    Use(Op),
    Ref(Pl),
    Agg(u32, Vec<Op>),
    Bin(BinOp, Op, Op, Option<IntT>),
    Checked(BinOp, Op, Op, Option<IntT>),
    Un(UnOp, Op, Option<IntT>),
    Discr(Pl, Rc<Vec<u128>>),
    Len(Pl),
    Repeat(Op, u64),
    IntCast(Op, IntT, IntT),
    /// a number as an optional `NonZero`
    NonZero(Op),
    Bad(String),
}
#[derive(Clone, Debug)]
pub enum St {
    Assign(Pl, Rv),
    Kill(u32),
    SetDiscr(Pl, u32),
    Bad(String),
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Indirect(Op),
    /// a function item (or pointer) called through a closure trait: the
    /// arguments come as one tuple
    Spread(Option<u32>),
    Bad(String),
}
#[derive(Clone, Debug)]
pub enum Tm {
    Goto(u32),
    Switch(Op, Vec<(u128, u32)>, u32),
    Return,
    Unreachable,
    Call { callee: Callee, args: Vec<Op>, dest: Pl, target: Option<u32> },
    Assert { cond: Op, expected: bool, msg: String, target: u32 },
    Dead,
    Bad(String),
}
pub struct Blk {
    pub st: Vec<St>,
    pub tm: Tm,
    pub line: u32,
    /// per statement source line is not kept; this is the terminator's file
    pub file: Rc<str>,
    /// the statements (terminator) may need a choice
    pub stmt_forks: bool,
    pub term_forks: bool,
    /// locals that stay live while the call ending this block runs
    /// (bit i: field i, bit 63: discriminant)
    pub live_across: Vec<u64>,
}
pub struct Func {
    pub id: u32,
    pub name: String,
    pub argc: usize,
    pub nlocals: usize,
    pub blocks: Vec<Blk>,
    pub live_in: Vec<Vec<u64>>,
    pub loop_head: Vec<bool>,
    pub is_closure: bool,
    pub spread: bool,
    /// function of the analysed crate (not std, not the spec)
    pub is_repo: bool,
    /// states are compared when it returns
    pub merges: bool,
    pub var_names: Vec<(String, u32)>,
    pub local_ty: Vec<Ty>,
}
pub enum FnKind {
    Body,
    Builtin(B),
    Ctor(u32),
    Bad(String),
}
pub struct FnInfo {
    pub inst: Instance,
    pub name: String,
    pub def: String,
    pub kind: Rc<FnKind>,
    pub func: Option<Rc<Func>>,
}
pub struct Prog {
    pub fns: Vec<FnInfo>,
    by_inst: HashMap<Instance, u32>,
    pub consts: Vec<Val>,
    pub models: HashMap<String, FnDef>,
    pub contracts: HashMap<String, FnDef>,
    /// contracts that stood in for a function
    pub used: std::collections::BTreeSet<String>,
    /// contracts in force (repo def name -> spec function name)
    pub overrides: HashMap<String, String>,
    alloc_cache: HashMap<String, u32>,
    file_cache: HashMap<String, Rc<str>>,
}

fn adt_name(d: &AdtDef) -> String {
    d.name().to_string()
}
fn transparent(ty: Ty) -> bool {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => {
            let n = adt_name(&d);
            matches!(
                n.as_str(),
                "std::boxed::Box" | "std::ptr::Unique" | "std::ptr::NonNull" | "std::mem::MaybeUninit" | "std::mem::ManuallyDrop" | "std::mem::MaybeDangling"
            )
        }
        TyKind::RigidTy(RigidTy::Pat(..)) => true,
        _ => false,
    }
}
pub fn int_ty(ty: Ty) -> Option<IntT> {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Int(i)) => Some(IntT { bits: 8 * i.num_bytes() as u32, signed: true }),
        TyKind::RigidTy(RigidTy::Uint(i)) => Some(IntT { bits: 8 * i.num_bytes() as u32, signed: false }),
        TyKind::RigidTy(RigidTy::Bool) => Some(IntT { bits: 1, signed: false }),
        TyKind::RigidTy(RigidTy::Char) => Some(IntT { bits: 32, signed: false }),
        _ => None,
    }
}
fn has_tokconst(v: &Val) -> bool {
    match v {
        Val::TokConst(_) => true,
        Val::Agg(_, f) => f.iter().any(has_tokconst),
        _ => false,
    }
}
pub fn discr_table(ty: Ty) -> Option<Vec<u128>> {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Enum => {
            let bits = ty.kind().discriminant_ty().and_then(int_ty).map(|t| t.bits).unwrap_or(64);
            Some(
                d.variants()
                    .iter()
                    .enumerate()
                    .map(|(i, _)| {
                        let x = d.discriminant_for_variant(VariantIdx::to_val(i)).val;
                        if bits < 128 { x & ((1u128 << bits) - 1) } else { x }
                    })
                    .collect(),
            )
        }
        _ => None,
    }
}

/// The constructor of a tuple struct or variant whose code was not kept.
fn foreign_ctor(inst: &Instance) -> Option<u32> {
    let TyKind::RigidTy(RigidTy::FnDef(f, _)) = inst.ty().kind() else { return None };
    let out = inst.ty().kind().fn_sig()?.skip_binder().output();
    let TyKind::RigidTy(RigidTy::Adt(d, _)) = out.kind() else { return None };
    let (f, a) = (f.name().to_string(), d.name().to_string());
    if d.kind() == AdtKind::Struct {
        return (f == a).then_some(0);
    }
    // the name may be that of a re-export
    let last = f.rsplit("::").next().unwrap_or("");
    d.variants().iter().position(|v| v.name() == last).map(|i| i as u32)
}
impl Prog {
    pub fn new() -> Prog {
        let mut models = HashMap::new();
        let mut contracts = HashMap::new();
        for it in all_local_items() {
            if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = it.ty().kind() {
                let n = it.name().to_string();
                if let Some(p) = n.strip_prefix("spec::model::") {
                    models.insert(p.to_string(), d);
                }
                if let Some(p) = n.strip_prefix("spec::contract::").or_else(|| n.strip_prefix("spec::deser::")) {
                    contracts.insert(p.to_string(), d);
                }
            }
        }
        Prog {
            fns: vec![],
            by_inst: HashMap::new(),
            consts: vec![],
            models,
            contracts,
            used: Default::default(),
            overrides: HashMap::new(),
            alloc_cache: HashMap::new(),
            file_cache: HashMap::new(),
        }
    }
    fn file(&mut self, s: &str) -> Rc<str> {
        if let Some(r) = self.file_cache.get(s) {
            return r.clone();
        }
        let r: Rc<str> = Rc::from(s);
        self.file_cache.insert(s.to_string(), r.clone());
        r
    }
    pub fn fn_id(&mut self, inst: Instance) -> u32 {
        if let Some(i) = self.by_inst.get(&inst) {
            return *i;
        }
        let name = inst.name().to_string();
        let item = CrateItem::try_from(inst).ok();
        let def = match inst.kind {
            InstanceKind::Intrinsic => format!("intrinsic::{}", inst.intrinsic_name().map(|s| s.to_string()).unwrap_or_default()),
            InstanceKind::Shim => format!("shim::{}", name),
            _ => item.map(|c| c.name().to_string()).unwrap_or_else(|| name.clone()),
        };
        let mut inst2 = inst;
        let mut kind = None;
        if let Some(target) = self.overrides.get(&def).cloned() {
            if let Some(d) = self.contracts.get(&target) {
                match Instance::resolve(*d, &GenericArgs(inst.args().0.iter().filter(|a| matches!(a, GenericArgKind::Type(_))).cloned().collect())) {
                    Ok(i) => {
                        inst2 = i;
                        self.used.insert(target.clone());
                    }
                    Err(e) => kind = Some(FnKind::Bad(format!("contract {}: {:?}", target, e))),
                }
            } else {
                kind = Some(FnKind::Bad(format!("no contract {}", target)));
            }
        }
        let kind = if let Some(k) = kind {
            k
        } else if inst2 != inst {
            FnKind::Body
        } else if matches!(item.map(|c| c.kind()), Some(ItemKind::Ctor(_))) {
            FnKind::Ctor(self.ctor_variant(&inst))
        } else {
            match classify(&def, &inst) {
                Some(B::Model(m, args)) => match self.models.get(m.as_str()) {
                    None => FnKind::Bad(format!("no model {}", m)),
                    Some(d) => match Instance::resolve(*d, &GenericArgs(args)) {
                        Ok(i) => {
                            inst2 = i;
                            FnKind::Body
                        }
                        Err(e) => FnKind::Bad(format!("model {}: {:?}", m, e)),
                    },
                },
                Some(b) => FnKind::Builtin(b),
                None => match inst.kind {
                    InstanceKind::Intrinsic => FnKind::Bad(format!("intrinsic {}", def)),
                    InstanceKind::Virtual { .. } => FnKind::Bad("virtual call".into()),
                    _ => {
                        if inst.has_body() {
                            FnKind::Body
                        } else if let Some(v) = foreign_ctor(&inst) {
                            FnKind::Ctor(v)
                        } else {
                            FnKind::Bad(format!("no body for {}", name))
                        }
                    }
                },
            }
        };
        let id = self.fns.len() as u32;
        self.fns.push(FnInfo { inst: inst2, name, def, kind: Rc::new(kind), func: None });
        self.by_inst.insert(inst, id);
        id
    }
    fn ctor_variant(&self, inst: &Instance) -> u32 {
        let n = inst.name().to_string();
        // last path segment without generic args
        let mut depth = 0;
        let mut segs: Vec<String> = vec![String::new()];
        let cs: Vec<char> = n.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            match cs[i] {
                '<' => depth += 1,
                '>' => depth -= 1,
                ':' if depth == 0 && i + 1 < cs.len() && cs[i + 1] == ':' => {
                    segs.push(String::new());
                    i += 1;
                }
                c if depth == 0 => segs.last_mut().unwrap().push(c),
                _ => {}
            }
            i += 1;
        }
        let segs: Vec<String> = segs.into_iter().filter(|s| !s.is_empty()).collect();
        let out = match inst.ty().kind().fn_sig() {
            Some(s) => s.skip_binder().output(),
            None => return 0,
        };
        if let TyKind::RigidTy(RigidTy::Adt(d, _)) = out.kind() {
            if d.kind() == AdtKind::Enum {
                for (i, v) in d.variants().iter().enumerate() {
                    if segs.last().map(|s| *s == v.name().to_string()).unwrap_or(false) {
                        return i as u32;
                    }
                }
            }
        }
        0
    }
    pub fn func(&mut self, id: u32) -> Result<Rc<Func>, String> {
        if let Some(f) = &self.fns[id as usize].func {
            return Ok(f.clone());
        }
        let f = Rc::new(self.lower(id)?);
        self.fns[id as usize].func = Some(f.clone());
        Ok(f)
    }

    // ---- constants -------------------------------------------------------
    fn const_val(&mut self, c: &MirConst) -> Result<Val, String> {
        let ty = c.ty();
        match c.kind() {
            ConstantKind::ZeroSized => self.zst(ty),
            ConstantKind::Allocated(a) => self.decode(ty, a, 0),
            ConstantKind::Ty(t) => match t.kind() {
                TyConstKind::Value(ty, a) => self.decode(*ty, a, 0),
                TyConstKind::ZSTValue(ty) => self.zst(*ty),
                k => Err(format!("type constant {:?}", k)),
            },
            k => Err(format!("constant {:?}", k)),
        }
    }
    fn zst(&mut self, ty: Ty) -> Result<Val, String> {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve_for_fn_ptr(d, &a) {
                Ok(i) => Ok(Val::Fn(self.fn_id(i))),
                Err(_) => match Instance::resolve(d, &a) {
                    Ok(i) => Ok(Val::Fn(self.fn_id(i))),
                    Err(e) => Err(format!("{:?}", e)),
                },
            },
            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                let mut v = vec![];
                for t in ts {
                    v.push(self.zst(t)?);
                }
                Ok(Val::agg(0, v))
            }
            TyKind::RigidTy(RigidTy::Adt(d, a)) if d.kind() == AdtKind::Struct => {
                let mut v = vec![];
                for f in d.variants()[0].fields() {
                    v.push(self.zst(f.ty_with_args(&a))?);
                }
                Ok(Val::agg(0, v))
            }
            TyKind::RigidTy(RigidTy::Adt(d, a)) if d.kind() == AdtKind::Enum => {
                let k = match ty.layout().map(|l| l.shape().variants) {
                    Ok(VariantsShape::Single { index }) => index.to_index(),
                    _ => return Ok(Val::unit()),
                };
                let mut v = vec![];
                for f in d.variants()[k].fields() {
                    v.push(self.zst(f.ty_with_args(&a))?);
                }
                Ok(Val::agg(k as u32, v))
            }
            _ => Ok(Val::unit()),
        }
    }
    fn read(a: &Allocation, off: usize, n: usize) -> Result<u128, String> {
        let mut v = 0u128;
        for i in (0..n).rev() {
            match a.bytes.get(off + i) {
                Some(Some(b)) => v = (v << 8) | *b as u128,
                _ => return Err("uninitialised constant byte".into()),
            }
        }
        Ok(v)
    }
    fn decode(&mut self, ty: Ty, a: &Allocation, off: usize) -> Result<Val, String> {
        if let Some(it) = int_ty(ty) {
            let n = match ty.kind() {
                TyKind::RigidTy(RigidTy::Bool) => 1,
                _ => (it.bits / 8) as usize,
            };
            return Ok(Val::Int(Self::read(a, off, n)?));
        }
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                let Some(id) = prov else { return Ok(Val::Int(Self::read(a, off, 8)?)) };
                let addend = Self::read(a, off, 8)? as usize;
                match GlobalAlloc::from(id) {
                    GlobalAlloc::Memory(m) => match t.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let len = Self::read(a, off + 8, 8)? as usize;
                            let mut b = vec![];
                            for i in 0..len {
                                b.push(Self::read(&m, addend + i, 1)? as u8);
                            }
                            let s = String::from_utf8(b).map_err(|e| e.to_string())?;
                            Ok(Val::Str(Rc::new(if s.is_empty() { vec![] } else { vec![Piece::Lit(Rc::from(s.as_str()))] })))
                        }
                        TyKind::RigidTy(RigidTy::Slice(et)) => {
                            let len = Self::read(a, off + 8, 8)? as usize;
                            let sz = et.layout().map_err(|e| format!("{:?}", e))?.shape().size.bytes();
                            let mut v = vec![];
                            for i in 0..len {
                                v.push(self.decode(et, &m, addend + i * sz)?);
                            }
                            let v = Val::agg(0, v);
                            Ok(Val::Ref(self.const_cell(v)))
                        }
                        _ => {
                            let v = self.decode(t, &m, addend)?;
                            Ok(Val::Ref(self.const_cell(v)))
                        }
                    },
                    GlobalAlloc::Function(i) => Ok(Val::Fn(self.fn_id(i))),
                    g => Err(format!("constant pointer to {:?}", g)),
                }
            }
            TyKind::RigidTy(RigidTy::FnDef(..)) => self.zst(ty),
            TyKind::RigidTy(RigidTy::FnPtr(..)) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                match prov.map(GlobalAlloc::from) {
                    Some(GlobalAlloc::Function(i)) => Ok(Val::Fn(self.fn_id(i))),
                    g => Err(format!("fn pointer constant {:?}", g)),
                }
            }
            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                let sh = ty.layout().map_err(|e| format!("{:?}", e))?.shape();
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() {
                    v.push(self.decode(*t, a, off + field_off(&sh.fields, i))?);
                }
                Ok(Val::agg(0, v))
            }
            TyKind::RigidTy(RigidTy::Array(et, n)) => {
                let n = n.eval_target_usize().map_err(|e| format!("{:?}", e))? as usize;
                let sz = et.layout().map_err(|e| format!("{:?}", e))?.shape().size.bytes();
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.decode(et, a, off + i * sz)?);
                }
                Ok(Val::agg(0, v))
            }
            TyKind::RigidTy(RigidTy::Adt(d, args)) => {
                let name = adt_name(&d);
                if name == "spec::rt::Fin" || name == "spec::rt::Tok" {
                    return match Self::read(a, off, 8)? {
                        1 => Ok(Val::TokConst(false)),
                        2 => Ok(Val::TokConst(true)),
                        x => Err(format!("element constant {}", x)),
                    };
                }
                let sh = ty.layout().map_err(|e| format!("{:?}", e))?.shape();
                if transparent(ty) {
                    let f = &d.variants()[0].fields();
                    for (i, f) in f.iter().enumerate() {
                        let ft = f.ty_with_args(&args);
                        if ft.layout().map(|l| l.shape().size.bytes()).unwrap_or(0) > 0 {
                            return self.decode(ft, a, off + field_off(&sh.fields, i));
                        }
                    }
                    return Ok(Val::Uninit);
                }
                if d.kind() == AdtKind::Union {
                    return Err("union constant".into());
                }
                let (vi, offs): (usize, Option<Vec<usize>>) = match &sh.variants {
                    VariantsShape::Single { index } => (index.to_index(), None),
                    VariantsShape::Empty => return Err("uninhabited constant".into()),
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = field_off(&sh.fields, *tag_field);
                        let tsz = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => {
                                value.size(&rustc_public::target::MachineInfo::target()).bytes()
                            }
                        };
                        let is_ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let t = Self::read(a, off + toff, tsz)?;
                                let tbl = discr_table(ty).unwrap();
                                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                tbl.iter().position(|x| (*x & mask) == t).ok_or("bad tag")?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if is_ptr {
                                    untagged_variant.to_index()
                                } else {
                                    let t = Self::read(a, off + toff, tsz)?;
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    let rel = t.wrapping_sub(*niche_start) & mask;
                                    let n = (niche_variants.end().to_index() - niche_variants.start().to_index()) as u128;
                                    if rel <= n {
                                        niche_variants.start().to_index() + rel as usize
                                    } else {
                                        untagged_variant.to_index()
                                    }
                                }
                            }
                        };
                        (vi, Some(variants[vi].offsets.iter().map(|o| o.bytes()).collect()))
                    }
                };
                let fs = d.variants()[vi].fields();
                let mut v = vec![];
                for (i, f) in fs.iter().enumerate() {
                    let o = match &offs {
                        Some(o) => o[i],
                        None => field_off(&sh.fields, i),
                    };
                    v.push(self.decode(f.ty_with_args(&args), a, off + o)?);
                }
                Ok(Val::agg(vi as u32, v))
            }
            TyKind::RigidTy(RigidTy::Pat(t, _)) => self.decode(t, a, off),
            TyKind::RigidTy(RigidTy::Closure(..)) => Ok(Val::unit()),
            k => Err(format!("constant of type {:?}", k)),
        }
    }
    fn const_cell(&mut self, v: Val) -> Ptr {
        let key = format!("{:?}", v);
        if let Some(i) = self.alloc_cache.get(&key) {
            return Ptr::of(Base::Const(*i));
        }
        let i = self.consts.len() as u32;
        self.consts.push(v);
        self.alloc_cache.insert(key, i);
        Ptr::of(Base::Const(i))
    }

    // ---- bodies ----------------------------------------------------------
    fn place(&mut self, p: &Place, locals: &[LocalDecl]) -> Result<Pl, String> {
        let mut ty = locals[p.local].ty;
        let mut proj = vec![];
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => proj.push(Pj::Deref),
                ProjectionElem::Field(i, fty) => {
                    if transparent(ty) {
                        // field 0 of a single-pointer wrapper is the wrapper itself;
                        // other fields are zero sized
                        if matches!(ty.kind(), TyKind::RigidTy(RigidTy::Adt(d, _)) if adt_name(&d)=="std::boxed::Box") && *i == 1 {
                            return Err("allocator field".into());
                        }
                        let _ = fty;
                    } else {
                        proj.push(Pj::Field(*i as u32));
                    }
                }
                ProjectionElem::Index(l) => proj.push(Pj::Index(*l as u32)),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => proj.push(Pj::CIndex(*offset, *from_end)),
                ProjectionElem::Subslice { from, to, from_end } => proj.push(Pj::Sub(*from, *to, *from_end)),
                ProjectionElem::Downcast(_) | ProjectionElem::OpaqueCast(_) => {}
            }
            ty = e.ty(ty).map_err(|e| format!("{:?}", e))?;
        }
        Ok(Pl { local: p.local as u32, proj })
    }
    fn op(&mut self, o: &Operand, locals: &[LocalDecl]) -> Op {
        match o {
            Operand::Copy(p) | Operand::Move(p) => match self.place(p, locals) {
                Ok(p) => Op::Copy(p),
                Err(e) => Op::Bad(e),
            },
            Operand::Constant(c) => match self.const_val(&c.const_) {
                Ok(v) => {
                    if has_tokconst(&v) {
                        Op::TConst(v)
                    } else {
                        Op::Const(v)
                    }
                }
                Err(e) => Op::Bad(format!("constant: {}", e)),
            },
            Operand::RuntimeChecks(k) => Op::Const(Val::bool(matches!(k, RuntimeChecks::OverflowChecks))),
        }
    }
    fn rvalue(&mut self, rv: &Rvalue, locals: &[LocalDecl]) -> Rv {
        let opty = |o: &Operand| o.ty(locals).ok();
        match rv {
            Rvalue::Use(o, _) => Rv::Use(self.op(o, locals)),
            Rvalue::CopyForDeref(p) => match self.place(p, locals) {
                Ok(p) => Rv::Use(Op::Copy(p)),
                Err(e) => Rv::Bad(e),
            },
            Rvalue::Reborrow(_, _, p) => match self.place(p, locals) {
                Ok(p) => Rv::Use(Op::Copy(p)),
                Err(e) => Rv::Bad(e),
            },
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) => match self.place(p, locals) {
                Ok(p) => Rv::Ref(p),
                Err(e) => Rv::Bad(e),
            },
            Rvalue::Aggregate(k, ops) => {
                let lowered: Vec<Op> = ops.iter().map(|o| self.op(o, locals)).collect();
                match k {
                    AggregateKind::Array(_) | AggregateKind::Tuple | AggregateKind::Closure(..) => Rv::Agg(0, lowered),
                    AggregateKind::Adt(d, v, args, _, fidx) => {
                        let ty = d.ty_with_args(args);
                        if transparent(ty) {
                            // keep the one operand that is not zero sized
                            for (i, o) in ops.iter().enumerate() {
                                let sz = opty(o).and_then(|t| t.layout().ok()).map(|l| l.shape().size.bytes()).unwrap_or(1);
                                if sz > 0 {
                                    return Rv::Use(lowered[i].clone());
                                }
                            }
                            return Rv::Use(lowered.into_iter().next().unwrap_or(Op::Const(Val::Uninit)));
                        }
                        if fidx.is_some() {
                            return Rv::Bad("union aggregate".into());
                        }
                        Rv::Agg(v.to_index() as u32, lowered)
                    }
                    AggregateKind::RawPtr(..) => Rv::Bad("raw pointer aggregate".into()),
                    k => Rv::Bad(format!("aggregate {:?}", k)),
                }
            }
            Rvalue::BinaryOp(b, x, y) => {
                let t = opty(x).and_then(int_ty);
                Rv::Bin(*b, self.op(x, locals), self.op(y, locals), t)
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                let t = opty(x).and_then(int_ty);
                Rv::Checked(*b, self.op(x, locals), self.op(y, locals), t)
            }
            Rvalue::UnaryOp(u, x) => {
                let t = opty(x).and_then(int_ty);
                Rv::Un(*u, self.op(x, locals), t)
            }
            Rvalue::Cast(k, o, ty) => match k {
                CastKind::IntToInt => match (opty(o).and_then(int_ty), int_ty(*ty)) {
                    (Some(a), Some(b)) => Rv::IntCast(self.op(o, locals), a, b),
                    _ => Rv::Bad("int cast of non-int".into()),
                },
                CastKind::PtrToPtr
                | CastKind::FnPtrToPtr
                | CastKind::BoxDerefTransmute
                | CastKind::Subtype
                | CastKind::PointerCoercion(PointerCoercion::MutToConstPointer)
                | CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_))
                | CastKind::PointerCoercion(PointerCoercion::UnsafeFnPointer) => Rv::Use(self.op(o, locals)),
                CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => {
                    match opty(o).map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::Closure(d, a))) => match Instance::resolve_closure(d, &a, ClosureKind::Fn) {
                            Ok(i) => Rv::Use(Op::Const(Val::Fn(self.fn_id(i)))),
                            Err(e) => Rv::Bad(format!("{:?}", e)),
                        },
                        _ => Rv::Bad("closure coercion".into()),
                    }
                }
                CastKind::PointerCoercion(PointerCoercion::Unsize) => {
                    // &[T; N] -> &[T] keeps the same referent
                    match ty.kind() {
                        TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) if t.kind().is_slice() => {
                            Rv::Use(self.op(o, locals))
                        }
                        TyKind::RigidTy(RigidTy::Adt(..)) => Rv::Use(self.op(o, locals)),
                        _ => Rv::Use(self.op(o, locals)),
                    }
                }
                CastKind::Transmute => {
                    let from = opty(o);
                    let ptrish = |t: Ty| {
                        matches!(t.kind(), TyKind::RigidTy(RigidTy::Ref(..)) | TyKind::RigidTy(RigidTy::RawPtr(..))) || transparent(t)
                    };
                    match from {
                        Some(f) if f == *ty || (ptrish(f) && ptrish(*ty)) || transparent(f) || transparent(*ty) => {
                            Rv::Use(self.op(o, locals))
                        }
                        Some(f) => match (int_ty(f), int_ty(*ty)) {
                            (Some(a), Some(b)) if a.bits == b.bits => Rv::Use(self.op(o, locals)),
                            (Some(_), None) if non_zero(*ty) == Some(true) => Rv::NonZero(self.op(o, locals)),
                            (None, Some(_)) if non_zero(f) == Some(false) => Rv::Use(self.op(o, locals)),
                            _ => Rv::Bad(format!("transmute {:?} -> {:?}", f, ty)),
                        },
                        None => Rv::Bad("transmute".into()),
                    }
                }
                k => Rv::Bad(format!("cast {:?}", k)),
            },
            Rvalue::Discriminant(p) => {
                let ty = p.ty(locals);
                match (self.place(p, locals), ty) {
                    (Ok(pl), Ok(t)) => match discr_table(t) {
                        // only one variant can exist
                        Some(tb) => match t.layout().map(|l| l.shape().variants) {
                            Ok(rustc_public::abi::VariantsShape::Single { index }) => {
                                Rv::Use(Op::Const(Val::Int(tb[index.to_index()])))
                            }
                            _ => Rv::Discr(pl, Rc::new(tb)),
                        },
                        None => Rv::Bad(format!("discriminant of {:?}", t)),
                    },
                    _ => Rv::Bad("discriminant".into()),
                }
            }
            Rvalue::Len(p) => match self.place(p, locals) {
                Ok(p) => Rv::Len(p),
                Err(e) => Rv::Bad(e),
            },
            Rvalue::Repeat(o, n) => match n.eval_target_usize() {
                Ok(n) => Rv::Repeat(self.op(o, locals), n),
                Err(e) => Rv::Bad(format!("{:?}", e)),
            },
            Rvalue::ThreadLocalRef(_) => Rv::Bad("thread local".into()),
        }
    }
    fn lower(&mut self, id: u32) -> Result<Func, String> {
        let inst = self.fns[id as usize].inst;
        let body = inst.body().ok_or_else(|| format!("no body for {}", inst.name()))?;
        let locals: Vec<LocalDecl> = body.locals().to_vec();
        let item = CrateItem::try_from(inst).ok();
        let defname = item.map(|i| i.name().to_string()).unwrap_or_default();
        let file_of = |s: &Span| s.get_filename().to_string();
        let bfile = file_of(&body.span);
        let is_repo = matches!(inst.kind, InstanceKind::Item) && crate_of(&inst) == "normalize_interval";
        let merges = is_repo || defname.starts_with("spec::contract::");
        let is_closure = matches!(inst.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..))) && !matches!(inst.kind, InstanceKind::Shim);
        let mut blocks = vec![];
        for bb in &body.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, rv) => match self.place(p, &locals) {
                        Ok(pl) => {
                            let r = self.rvalue(rv, &locals);
                            st.push(St::Assign(pl, r));
                        }
                        Err(e) => st.push(St::Bad(e)),
                    },
                    StatementKind::SetDiscriminant { place, variant_index } => match self.place(place, &locals) {
                        Ok(pl) => st.push(St::SetDiscr(pl, variant_index.to_index() as u32)),
                        Err(e) => st.push(St::Bad(e)),
                    },
                    StatementKind::StorageLive(l) | StatementKind::StorageDead(l) => st.push(St::Kill(*l as u32)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => {}
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => st.push(St::Bad("copy_nonoverlapping".into())),
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line as u32;
            let f = file_of(&bb.terminator.source_info.span);
            let file = self.file(&f);
            let tm = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => Tm::Goto(*target as u32),
                TerminatorKind::SwitchInt { discr, targets } => Tm::Switch(
                    self.op(discr, &locals),
                    targets.branches().map(|(v, b)| (v, b as u32)).collect(),
                    targets.otherwise() as u32,
                ),
                TerminatorKind::Return => Tm::Return,
                TerminatorKind::Unreachable => Tm::Unreachable,
                TerminatorKind::Drop { target, .. } => Tm::Goto(*target as u32),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&locals).map_err(|e| format!("{:?}", e))?;
                    let callee = match fty.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => match fn_value(&d, &a) {
                            Some(FnValue::Def(d2, a2)) => match Instance::resolve(d2, &a2) {
                                Ok(i) => Callee::Spread(Some(self.fn_id(i))),
                                Err(e) => Callee::Bad(format!("cannot resolve {}: {:?}", d2.name(), e)),
                            },
                            Some(FnValue::Ptr) => Callee::Spread(None),
                            None => match Instance::resolve(d, &a) {
                                Ok(i) => Callee::Fn(self.fn_id(i)),
                                Err(e) => Callee::Bad(format!("cannot resolve {}: {:?}", d.name(), e)),
                            },
                        },
                        TyKind::RigidTy(RigidTy::FnPtr(_)) => Callee::Indirect(self.op(func, &locals)),
                        k => Callee::Bad(format!("call of {:?}", k)),
                    };
                    let args = args.iter().map(|a| self.op(a, &locals)).collect();
                    let dest = self.place(destination, &locals)?;
                    Tm::Call { callee, args, dest, target: target.map(|t| t as u32) }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => Tm::Assert {
                    cond: self.op(cond, &locals),
                    expected: *expected,
                    msg: msg.description().map(|s| s.to_string()).unwrap_or_else(|_| format!("{:?}", std::mem::discriminant(msg))),
                    target: *target as u32,
                },
                TerminatorKind::Resume | TerminatorKind::Abort => Tm::Dead,
                TerminatorKind::InlineAsm { .. } => Tm::Bad("inline asm".into()),
            };
            let stmt_forks = st.iter().any(|s| match s {
                St::Assign(_, Rv::Bin(..)) | St::Assign(_, Rv::Checked(..)) => true,
                St::Assign(_, r) => {
                    let mut t = false;
                    ops_of(r, &mut |o| t |= matches!(o, Op::TConst(_)));
                    t
                }
                _ => false,
            });
            let term_forks = match &tm {
                Tm::Call { callee, args, .. } => {
                    args.iter().any(|o| matches!(o, Op::TConst(_)))
                        || match callee {
                            Callee::Fn(i) => matches!(&*self.fns[*i as usize].kind, FnKind::Builtin(b) if b.may_choose()),
                            Callee::Spread(Some(i)) => matches!(&*self.fns[*i as usize].kind, FnKind::Builtin(b) if b.may_choose()),
                            Callee::Indirect(_) | Callee::Spread(None) => true,
                            Callee::Bad(_) => false,
                        }
                }
                _ => false,
            };
            blocks.push(Blk { st, tm, line, file, stmt_forks, term_forks, live_across: vec![] });
        }
        let mut var_names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    var_names.push((v.name.to_string(), p.local as u32));
                }
            }
        }
        let nlocals = locals.len();
        const_indices(&mut blocks, nlocals);
        let (live_in, loop_head) = flow(&blocks, nlocals);
        for b in blocks.iter_mut() {
            if let Tm::Call { dest, target, .. } = &b.tm {
                let mut l = match target {
                    Some(t) => live_in[*t as usize].clone(),
                    None => vec![0; nlocals],
                };
                kill_or_use(dest, &mut l);
                b.live_across = l;
            }
        }
        let _ = (defname, bfile);
        Ok(Func {
            id,
            name: self.fns[id as usize].name.clone(),
            argc: body.arg_locals().len(),
            nlocals,
            blocks,
            live_in,
            loop_head,
            is_closure,
            spread: body.spread_arg().is_some(),
            is_repo,
            merges,
            var_names,
            local_ty: locals.iter().map(|l| l.ty).collect(),
        })
    }
}

pub fn crate_of(inst: &Instance) -> String {
    inst.def.krate_name()
}
pub trait KrateName {
    fn krate_name(&self) -> String;
}
impl KrateName for rustc_public::mir::mono::InstanceDef {
    fn krate_name(&self) -> String {
        use rustc_public::CrateDef;
        self.krate().name.to_string()
    }
}

fn field_off(f: &FieldsShape, i: usize) -> usize {
    match f {
        FieldsShape::Arbitrary { offsets } => offsets[i].bytes(),
        _ => 0,
    }
}

/// Which part of its local a projection reaches.
fn part(proj: &[Pj]) -> u64 {
    match proj.first() {
        Some(Pj::Field(i)) if *i < 62 => 1 << *i,
        Some(Pj::CIndex(i, false)) if *i < 62 => 1 << *i,
        _ => u64::MAX,
    }
}
pub const DISCR: u64 = 1 << 63;
fn kill_or_use(p: &Pl, l: &mut [u64]) {
    match (p.proj.len(), part(&p.proj)) {
        (0, _) => l[p.local as usize] = 0,
        (1, m) if m != u64::MAX => l[p.local as usize] &= !m,
        _ => uses_place(p, &mut |x, m| l[x as usize] |= m),
    }
}
/// Index projections by a local that only ever holds one constant.
fn const_indices(blocks: &mut [Blk], n: usize) {
    let mut val: Vec<Option<u128>> = vec![None; n];
    let mut bad = vec![false; n];
    for b in blocks.iter() {
        for s in &b.st {
            match s {
                St::Assign(p, r) => {
                    let x = p.local as usize;
                    match r {
                        Rv::Use(Op::Const(Val::Int(k))) if p.proj.is_empty() && val[x].is_none() => val[x] = Some(*k),
                        _ => bad[x] = true,
                    }
                    if let Rv::Ref(q) = r {
                        bad[q.local as usize] = true;
                    }
                }
                St::SetDiscr(p, _) => bad[p.local as usize] = true,
                _ => {}
            }
        }
        if let Tm::Call { dest, .. } = &b.tm {
            bad[dest.local as usize] = true;
        }
    }
    let fix = |p: &mut Pl| {
        for j in p.proj.iter_mut() {
            if let Pj::Index(l) = j {
                if let (Some(k), false) = (val[*l as usize], bad[*l as usize]) {
                    *j = Pj::CIndex(k as _, false);
                }
            }
        }
    };
    let fixo = |o: &mut Op| {
        if let Op::Copy(p) = o {
            fix(p)
        }
    };
    for b in blocks.iter_mut() {
        for s in b.st.iter_mut() {
            match s {
                St::Assign(p, r) => {
                    fix(p);
                    match r {
                        Rv::Use(o) | Rv::Un(_, o, _) | Rv::Repeat(o, _) | Rv::NonZero(o) | Rv::IntCast(o, ..) => fixo(o),
                        Rv::Ref(p) | Rv::Discr(p, _) | Rv::Len(p) => fix(p),
                        Rv::Agg(_, os) => os.iter_mut().for_each(fixo),
                        Rv::Bin(_, a, b, _) | Rv::Checked(_, a, b, _) => {
                            fixo(a);
                            fixo(b);
                        }
                        Rv::Bad(_) => {}
                    }
                }
                St::SetDiscr(p, _) => fix(p),
                _ => {}
            }
        }
        match &mut b.tm {
            Tm::Switch(o, ..) => fixo(o),
            Tm::Assert { cond, .. } => fixo(cond),
            Tm::Call { args, dest, .. } => {
                args.iter_mut().for_each(fixo);
                fix(dest);
            }
            _ => {}
        }
    }
}
fn uses_place(p: &Pl, out: &mut dyn FnMut(u32, u64)) {
    out(p.local, part(&p.proj) | if p.proj.is_empty() { u64::MAX } else { 0 });
    for j in &p.proj {
        if let Pj::Index(l) = j {
            out(*l, u64::MAX);
        }
    }
}
fn uses_op(o: &Op, out: &mut dyn FnMut(u32, u64)) {
    if let Op::Copy(p) = o {
        uses_place(p, out);
    }
}
fn ops_of(r: &Rv, f: &mut dyn FnMut(&Op)) {
    match r {
        Rv::Use(o) | Rv::Un(_, o, _) | Rv::Repeat(o, _) | Rv::NonZero(o) | Rv::IntCast(o, ..) => f(o),
        Rv::Agg(_, os) => os.iter().for_each(f),
        Rv::Bin(_, a, b, _) | Rv::Checked(_, a, b, _) => {
            f(a);
            f(b);
        }
        _ => {}
    }
}
fn uses_rv(r: &Rv, out: &mut dyn FnMut(u32, u64)) {
    match r {
        Rv::Use(o) | Rv::Un(_, o, _) | Rv::Repeat(o, _) | Rv::NonZero(o) | Rv::IntCast(o, ..) => uses_op(o, out),
        Rv::Discr(p, _) if p.proj.is_empty() => out(p.local, DISCR),
        Rv::Ref(p) | Rv::Discr(p, _) | Rv::Len(p) => uses_place(p, out),
        Rv::Agg(_, os) => os.iter().for_each(|o| uses_op(o, out)),
        Rv::Bin(_, a, b, _) | Rv::Checked(_, a, b, _) => {
            uses_op(a, out);
            uses_op(b, out);
        }
        Rv::Bad(_) => {}
    }
}
fn succs(t: &Tm) -> Vec<u32> {
    match t {
        Tm::Goto(b) => vec![*b],
        Tm::Switch(_, bs, o) => bs.iter().map(|x| x.1).chain([*o]).collect(),
        Tm::Call { target, .. } => target.iter().copied().collect(),
        Tm::Assert { target, .. } => vec![*target],
        _ => vec![],
    }
}
fn flow(blocks: &[Blk], n: usize) -> (Vec<Vec<u64>>, Vec<bool>) {
    // liveness
    let mut live: Vec<Vec<u64>> = vec![vec![0; n]; blocks.len()];
    let mut changed = true;
    while changed {
        changed = false;
        for (bi, b) in blocks.iter().enumerate().rev() {
            let mut l = vec![0u64; n];
            for s in succs(&b.tm) {
                for i in 0..n {
                    l[i] |= live[s as usize][i];
                }
            }
            match &b.tm {
                Tm::Return => l[0] = u64::MAX,
                Tm::Switch(o, ..) => uses_op(o, &mut |x, m| l[x as usize] |= m),
                Tm::Assert { cond, .. } => uses_op(cond, &mut |x, m| l[x as usize] |= m),
                Tm::Call { callee, args, dest, .. } => {
                    kill_or_use(dest, &mut l);
                    if let Callee::Indirect(o) = callee {
                        uses_op(o, &mut |x, m| l[x as usize] |= m);
                    }
                    for a in args {
                        uses_op(a, &mut |x, m| l[x as usize] |= m);
                    }
                }
                _ => {}
            }
            for s in b.st.iter().rev() {
                match s {
                    St::Assign(p, r) => {
                        kill_or_use(p, &mut l);
                        uses_rv(r, &mut |x, m| l[x as usize] |= m);
                    }
                    St::SetDiscr(p, _) => uses_place(p, &mut |x, m| l[x as usize] |= m),
                    St::Kill(x) => l[*x as usize] = 0,
                    St::Bad(_) => {}
                }
            }
            if l != live[bi] {
                live[bi] = l;
                changed = true;
            }
        }
    }
    // loop heads: targets of back edges in a depth-first walk
    let mut head = vec![false; blocks.len()];
    let mut state = vec![0u8; blocks.len()];
    let mut stack: Vec<(u32, usize)> = vec![(0, 0)];
    state[0] = 1;
    while let Some((b, i)) = stack.pop() {
        let ss = succs(&blocks[b as usize].tm);
        if i < ss.len() {
            stack.push((b, i + 1));
            let t = ss[i] as usize;
            match state[t] {
                0 => {
                    state[t] = 1;
                    stack.push((t as u32, 0));
                }
                1 => head[t] = true,
                _ => {}
            }
        } else {
            state[b as usize] = 2;
        }
    }
    (live, head)
}

enum FnValue {
    Def(FnDef, GenericArgs),
    Ptr,
}
/// Is this a call of a function item or function pointer through Fn/FnMut/FnOnce?
fn fn_value(d: &FnDef, a: &GenericArgs) -> Option<FnValue> {
    let n = d.name().to_string();
    if !(n.ends_with("FnOnce::call_once") || n.ends_with("FnMut::call_mut") || n.ends_with("Fn::call")) {
        return None;
    }
    match a.0.first() {
        Some(GenericArgKind::Type(t)) => match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d2, a2)) => Some(FnValue::Def(d2, a2)),
            TyKind::RigidTy(RigidTy::FnPtr(_)) => Some(FnValue::Ptr),
            _ => None,
        },
        _ => None,
    }
}

/// `NonZero` (false) or an optional one (true).
fn non_zero(t: Ty) -> Option<bool> {
    let TyKind::RigidTy(RigidTy::Adt(d, a)) = t.kind() else { return None };
    let n = d.name();
    if n.ends_with("num::NonZero") {
        return Some(false);
    }
    match a.0.first() {
        Some(GenericArgKind::Type(u)) if n.ends_with("option::Option") && non_zero(*u) == Some(false) => Some(true),
        _ => None,
    }
}
