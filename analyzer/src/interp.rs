//! The abstract interpreter: a worklist over abstract states, with states
//! merged when they agree after dropping everything that no longer matters.
use crate::builtins;
use crate::ctx::{Ctx, Res, Stop};
use crate::line::Line;
use crate::lower::*;
use crate::tree::{Key, Tree};
use crate::val::*;
use rustc_public::mir::{BinOp, UnOp};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub bb: u32,
    pub locals: Vec<Val>,
}

pub struct TraceNode {
    pub what: (Rc<Func>, u32, u32),
    pub prev: Trace,
}
#[derive(Clone, Default)]
pub struct Trace(Option<Rc<TraceNode>>);
impl Trace {
    fn push(&mut self, what: (Rc<Func>, u32, u32)) {
        let prev = std::mem::take(self);
        *self = Trace(Some(Rc::new(TraceNode { what, prev })));
    }
}
impl Drop for Trace {
    fn drop(&mut self) {
        let mut cur = self.0.take();
        while let Some(rc) = cur {
            match Rc::try_unwrap(rc) {
                Ok(mut n) => cur = n.prev.0.take(),
                Err(_) => break,
            }
        }
    }
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub heap: Vec<Val>,
    pub line: Line,
    /// ranges of the symbolic integers
    pub syms: Vec<(i128, i128)>,
    /// which of them is the total length of these printed elements
    pub lens: Vec<(Vec<u32>, u32)>,
    /// elements whose text form is known to begin with a minus sign, or not to
    pub heads: Vec<(u32, bool)>,
    /// the size of a set has been asked for: it may be forgotten since
    pub sized: bool,
    /// the latest piece taken from each of the two disjoint sets, and whether
    /// there was one before it
    pub ghosts: [(Val, bool); 2],
    /// the summaries used here do not keep all that is known of the inputs
    pub blur: bool,
    /// where asked for: how many steps away from a value it was given the code
    /// has gone to reach each of these
    pub steps: Option<Vec<(u32, u8)>>,
    /// statements of the current block are done
    pub at_term: bool,
    pub trace: Trace,
    /// the recorded state this one was reached from
    pub node: u32,
}

/// Pages this process holds at most (3 GB).
const MEMORY: u64 = 3 << 18;
fn memory() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0)
}

pub const WALKS: &str = "steps through the points of an interval one by one";
/// More steps than this from one value count as a walk.
const STEPS: u8 = 8;

/// Counting stops here: from then on a counter is only known to be at least this.
const COUNTED: u128 = 9;

pub fn unsup<T>(s: impl Into<String>) -> Res<T> {
    Err(Stop::Unsupported(s.into()))
}

fn step_into<'a>(v: &'a Val, i: u32) -> Res<&'a Val> {
    match v {
        Val::Agg(_, f) => f.get(i as usize).ok_or_else(|| Stop::Unsupported(format!("field {} of {:?}", i, v))),
        Val::Vec(a) => a.elems.get(i as usize).ok_or_else(|| Stop::Unsupported("vec element".into())),
        _ => unsup(format!("field {} of {:?}", i, v)),
    }
}

impl State {
    /// The code goes one step from a to b, which is new or not.
    pub fn step(&mut self, a: u32, b: u32, new: bool) -> Res<()> {
        let Some(s) = &mut self.steps else { return Ok(()) };
        if new {
            let n = 1 + s.iter().find(|x| x.0 == a).map_or(0, |x| x.1);
            if n > STEPS {
                return Err(Stop::Violation(WALKS.into()));
            }
            s.push((b, n));
        }
        Ok(())
    }
    pub fn top(&self) -> usize {
        self.frames.len() - 1
    }
    pub fn alloc(&mut self, v: Val) -> Ptr {
        for (i, s) in self.heap.iter_mut().enumerate() {
            if matches!(s, Val::Free) {
                *s = v;
                return Ptr::of(Base::Heap(i as u32));
            }
        }
        self.heap.push(v);
        Ptr::of(Base::Heap(self.heap.len() as u32 - 1))
    }
    pub fn resolve<'a>(&'a self, p: &Ptr, prog: &'a Prog) -> Res<&'a Val> {
        let mut v = match p.base {
            Base::Local { frame, local } => match self.frames.get(frame as usize) {
                Some(f) => &f.locals[local as usize],
                None => return unsup("dangling frame"),
            },
            Base::Heap(i) => &self.heap[i as usize],
            Base::Const(i) => &prog.consts[i as usize],
        };
        for i in p.path.iter() {
            v = step_into(v, *i)?;
        }
        Ok(v)
    }
    pub fn load(&self, p: &Ptr, prog: &Prog) -> Res<Val> {
        Ok(self.resolve(p, prog)?.clone())
    }
    pub fn store(&mut self, p: &Ptr, val: Val) -> Res<()> {
        let mut v: &mut Val = match p.base {
            Base::Local { frame, local } => {
                let f = match self.frames.get_mut(frame as usize) {
                    Some(f) => f,
                    None => return unsup("dangling frame"),
                };
                &mut Rc::make_mut(f).locals[local as usize]
            }
            Base::Heap(i) => &mut self.heap[i as usize],
            Base::Const(_) => return unsup("store to constant"),
        };
        for i in p.path.iter() {
            if v.is_uninit() {
                *v = Val::agg(0, vec![Val::Uninit; *i as usize + 1]);
            }
            match v {
                Val::Agg(_, f) => {
                    let f = Rc::make_mut(f);
                    while f.len() <= *i as usize {
                        f.push(Val::Uninit);
                    }
                    v = &mut f[*i as usize];
                }
                Val::Vec(a) => {
                    let a = Rc::make_mut(a);
                    match a.elems.get_mut(*i as usize) {
                        Some(e) => v = e,
                        None => return unsup("vec element"),
                    }
                }
                _ => return unsup(format!("store into field {} of {:?}", i, v)),
            }
        }
        *v = val;
        Ok(())
    }
    /// Address of a place.
    fn addr(&self, pl: &Pl, prog: &Prog) -> Res<Val> {
        let f = self.top() as u32;
        let fr = &self.frames[f as usize];
        let mut cur: Val = Val::Ref(Ptr::local(f, pl.local));
        for j in &pl.proj {
            cur = match j {
                Pj::Deref => {
                    let v = match &cur {
                        Val::Ref(p) => self.resolve(p, prog)?.clone(),
                        _ => return unsup("deref of slice place"),
                    };
                    match v {
                        Val::Ref(_) | Val::Slice(..) => v,
                        // text is its own referent
                        Val::Str(_) | Val::Opaque(..) => cur,
                        v => return unsup(format!("deref of {:?}", v)),
                    }
                }
                Pj::Field(i) => match &cur {
                    Val::Ref(p) => Val::Ref(p.field(*i)),
                    _ => return unsup("field of slice place"),
                },
                Pj::Index(_) | Pj::CIndex(..) => {
                    let (p, lo, hi) = self.slice_of(&cur, prog)?;
                    let n = hi - lo;
                    let k = match j {
                        Pj::Index(l) => match fr.locals[*l as usize] {
                            Val::Int(k) => k as u32,
                            _ => return unsup("symbolic index"),
                        },
                        Pj::CIndex(k, from_end) => {
                            if *from_end {
                                n - *k as u32
                            } else {
                                *k as u32
                            }
                        }
                        _ => unreachable!(),
                    };
                    Val::Ref(p.field(lo + k))
                }
                Pj::Sub(a, b, from_end) => {
                    let (p, lo, hi) = self.slice_of(&cur, prog)?;
                    let n = hi - lo;
                    let e = if *from_end { n - *b as u32 } else { *b as u32 };
                    Val::Slice(p, lo + *a as u32, lo + e)
                }
            };
        }
        Ok(cur)
    }
    /// (array or vec, from, to) behind a reference value
    pub fn slice_of(&self, v: &Val, prog: &Prog) -> Res<(Ptr, u32, u32)> {
        match v {
            Val::Slice(p, a, b) => Ok((p.clone(), *a, *b)),
            Val::Ref(p) => match self.resolve(p, prog)? {
                Val::Agg(_, f) => Ok((p.clone(), 0, f.len() as u32)),
                Val::Vec(a) if !a.more => Ok((p.clone(), 0, a.elems.len() as u32)),
                v => unsup(format!("slice of {:?}", v)),
            },
            v => unsup(format!("slice of {:?}", v)),
        }
    }
    fn read_pl(&self, pl: &Pl, prog: &Prog) -> Res<Val> {
        let fr = &self.frames[self.top()];
        let mut cur = &fr.locals[pl.local as usize];
        let mut k = 0;
        while k < pl.proj.len() {
            match &pl.proj[k] {
                Pj::Field(i) => cur = step_into(cur, *i)?,
                Pj::Deref => match cur {
                    Val::Ref(p) => cur = self.resolve(p, prog)?,
                    Val::Str(_) | Val::Opaque(..) => {}
                    Val::Slice(..) => return self.read_slow(pl, prog),
                    v => return unsup(format!("deref of {:?}", v)),
                },
                _ => return self.read_slow(pl, prog),
            }
            k += 1;
        }
        Ok(cur.clone())
    }
    fn read_slow(&self, pl: &Pl, prog: &Prog) -> Res<Val> {
        match self.addr(pl, prog)? {
            Val::Ref(p) => self.load(&p, prog),
            v => unsup(format!("read of {:?}", v)),
        }
    }
    fn write_pl(&mut self, pl: &Pl, v: Val, prog: &Prog) -> Res<()> {
        if pl.proj.is_empty() {
            let t = self.top();
            Rc::make_mut(&mut self.frames[t]).locals[pl.local as usize] = v;
            return Ok(());
        }
        if let [Pj::Field(i)] = pl.proj[..] {
            let t = self.top() as u32;
            return self.store(&Ptr { base: Base::Local { frame: t, local: pl.local }, path: Rc::new(vec![i]) }, v);
        }
        match self.addr(pl, prog)? {
            Val::Ref(p) => self.store(&p, v),
            v => unsup(format!("write to {:?}", v)),
        }
    }
    pub fn tok_const(&mut self, max: bool, cx: &mut Ctx) -> Res<Val> {
        let c = if max { self.line.max(cx)? } else { self.line.min(cx)? };
        Ok(Val::Tok(c))
    }
    fn inst_const(&mut self, v: &Val, cx: &mut Ctx) -> Res<Val> {
        Ok(match v {
            Val::TokConst(m) => self.tok_const(*m, cx)?,
            Val::Agg(k, f) => {
                let mut o = vec![];
                for x in f.iter() {
                    o.push(self.inst_const(x, cx)?);
                }
                Val::agg(*k, o)
            }
            v => v.clone(),
        })
    }
    fn op(&mut self, o: &Op, prog: &Prog, cx: &mut Ctx) -> Res<Val> {
        match o {
            Op::Copy(p) => self.read_pl(p, prog),
            Op::Const(v) => Ok(v.clone()),
            Op::TConst(v) => self.inst_const(v, cx),
            Op::Bad(e) => unsup(e.clone()),
        }
    }

    // ---- integers --------------------------------------------------------
    /// The value of a symbolic integer as (index, offset), in the
    /// order-preserving signed picture of its type.
    fn decide(&mut self, s: u32, lo: i128, hi: i128, cx: &mut Ctx) -> Res<bool> {
        // is sym s within [lo, hi]?
        let (a, b) = self.syms[s as usize];
        if lo > hi || hi < a || lo > b {
            return Ok(false);
        }
        if lo <= a && b <= hi {
            return Ok(true);
        }
        let mut outs: Vec<(i128, i128, bool)> = vec![];
        if a < lo {
            outs.push((a, lo - 1, false));
        }
        outs.push((a.max(lo), b.min(hi), true));
        if hi < b {
            outs.push((hi + 1, b, false));
        }
        let (x, y, r) = outs[cx.choose(outs.len())?];
        self.syms[s as usize] = (x, y);
        Ok(r)
    }
    fn cmp_ints(&mut self, a: &Val, b: &Val, t: IntT, cx: &mut Ctx) -> Res<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        match (a, b) {
            (Val::Int(x), Val::Int(y)) => Ok(pic(*x, t).cmp(&pic(*y, t))),
            (Val::AtLeast(n), Val::Int(y)) => {
                if y < n {
                    Ok(Greater)
                } else {
                    unsup("comparison of an unbounded length")
                }
            }
            (Val::Int(_), Val::AtLeast(_)) => Ok(self.cmp_ints(b, a, t, cx)?.reverse()),
            (Val::Sym(s, o), Val::Int(y)) => {
                let y = pic(*y, t);
                let Some(c) = y.checked_sub(*o) else {
                    return unsup("symbolic comparison");
                };
                if self.decide(*s, c, c, cx)? {
                    return Ok(Equal);
                }
                if c > i128::MIN && self.decide(*s, i128::MIN, c - 1, cx)? {
                    return Ok(Less);
                }
                Ok(Greater)
            }
            (Val::Int(_), Val::Sym(..)) => Ok(self.cmp_ints(b, a, t, cx)?.reverse()),
            (Val::Sym(s, o), Val::Sym(s2, o2)) if s == s2 => Ok(o.cmp(o2)),
            (a, b) => unsup(format!("comparison of {:?} and {:?}", a, b)),
        }
    }
    /// a + k with the exact mathematical overflow condition
    fn add_sym(&mut self, s: u32, o: i128, k: i128, t: IntT, cx: &mut Ctx) -> Res<(Val, bool)> {
        let (lo, hi) = range(t);
        let Some(n) = o.checked_add(k) else { return unsup("symbolic offset") };
        // in range iff lo <= s + n <= hi
        let (a, b) = if n >= 0 { (lo, hi - n) } else { (lo - n, hi) };
        let ok = self.decide(s, a, b, cx)?;
        Ok((Val::Sym(s, n), !ok))
    }
    fn bin(&mut self, b: BinOp, x: &Val, y: &Val, t: Option<IntT>, cx: &mut Ctx) -> Res<Val> {
        use std::cmp::Ordering::*;
        if matches!(b, BinOp::Eq | BinOp::Ne | BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge | BinOp::Cmp) {
            let Some(t) = t else {
                return match (b, x, y) {
                    (BinOp::Eq, Val::Ref(p), Val::Ref(q)) => Ok(Val::bool(p == q)),
                    (BinOp::Ne, Val::Ref(p), Val::Ref(q)) => Ok(Val::bool(p != q)),
                    _ => unsup(format!("{:?} on {:?} and {:?}", b, x, y)),
                };
            };
            let c = self.cmp_ints(x, y, t, cx)?;
            return Ok(match b {
                BinOp::Eq => Val::bool(c == Equal),
                BinOp::Ne => Val::bool(c != Equal),
                BinOp::Lt => Val::bool(c == Less),
                BinOp::Le => Val::bool(c != Greater),
                BinOp::Gt => Val::bool(c == Greater),
                BinOp::Ge => Val::bool(c != Less),
                _ => ordering(c),
            });
        }
        Ok(self.arith(b, x, y, t, cx)?.0)
    }
    fn arith(&mut self, b: BinOp, x: &Val, y: &Val, t: Option<IntT>, cx: &mut Ctx) -> Res<(Val, bool)> {
        let Some(t) = t else { return unsup(format!("{:?} without integer type", b)) };
        let m = mask(t.bits);
        match (x, y) {
            (Val::Int(a), Val::Int(c)) => {
                let (a, c) = (*a, *c);
                let (sa, sc) = (sext(a, t), sext(c, t));
                Ok(match b {
                    BinOp::Add | BinOp::AddUnchecked => {
                        let r = a.wrapping_add(c) & m;
                        let ov = if t.signed {
                            sa.checked_add(sc).map_or(true, |v| v != sext(r, t))
                        } else {
                            a.checked_add(c).map_or(true, |v| v != r)
                        };
                        if c == 1 && t.bits == 64 && !t.signed && a == COUNTED - 1 {
                            return Ok((Val::AtLeast(COUNTED), false));
                        }
                        (Val::Int(r), ov)
                    }
                    BinOp::Sub | BinOp::SubUnchecked => {
                        let r = a.wrapping_sub(c) & m;
                        let ov = if t.signed { sa.checked_sub(sc).map_or(true, |v| v != sext(r, t)) } else { a < c };
                        (Val::Int(r), ov)
                    }
                    BinOp::Mul | BinOp::MulUnchecked => {
                        let r = a.wrapping_mul(c) & m;
                        let ov = if t.signed {
                            sa.checked_mul(sc).map_or(true, |v| v != sext(r, t))
                        } else {
                            a.checked_mul(c).map_or(true, |v| v != r)
                        };
                        (Val::Int(r), ov)
                    }
                    BinOp::BitAnd => (Val::Int(a & c), false),
                    BinOp::BitOr => (Val::Int(a | c), false),
                    BinOp::BitXor => (Val::Int(a ^ c), false),
                    BinOp::Div if c != 0 && !t.signed => (Val::Int(a / c), false),
                    BinOp::Rem if c != 0 && !t.signed => (Val::Int(a % c), false),
                    b => return unsup(format!("integer {:?}", b)),
                })
            }
            // a count of elements: some elements more (memory ends before usize does)
            (Val::AtLeast(n), Val::Int(k)) | (Val::Int(k), Val::AtLeast(n))
                if !t.signed && t.bits == 64 && *k < 1 << 32 && matches!(b, BinOp::Add | BinOp::AddUnchecked) =>
            {
                Ok((Val::AtLeast(*n), false))
            }
            (Val::Sym(s, o), Val::Int(c)) => {
                let k = if t.signed { sext(*c, t) } else { *c as i128 };
                if !t.signed && *c > i128::MAX as u128 {
                    return unsup("large offset");
                }
                match b {
                    BinOp::Add | BinOp::AddUnchecked => self.add_sym(*s, *o, k, t, cx),
                    BinOp::Sub | BinOp::SubUnchecked => self.add_sym(*s, *o, -k, t, cx),
                    b => unsup(format!("symbolic {:?}", b)),
                }
            }
            (Val::Int(_), Val::Sym(..)) if b == BinOp::Add => self.arith(b, y, x, Some(t), cx),
            (x, y) => unsup(format!("{:?} on {:?} and {:?}", b, x, y)),
        }
    }
    fn rvalue(&mut self, r: &Rv, prog: &Prog, cx: &mut Ctx) -> Res<Val> {
        match r {
            Rv::Use(o) => self.op(o, prog, cx),
            Rv::Ref(p) => {
                // reborrow of a whole referent keeps the pointer
                if let [Pj::Deref] = p.proj[..] {
                    return Ok(self.frames[self.top()].locals[p.local as usize].clone());
                }
                let a = self.addr(p, prog)?;
                // text and opaque handles stand for their own reference
                if let (Val::Ref(q), Some(Pj::Deref)) = (&a, p.proj.last()) {
                    if let Val::Str(_) = self.resolve(q, prog)? {
                        let v = self.load(q, prog)?;
                        return Ok(v);
                    }
                }
                Ok(a)
            }
            Rv::Agg(k, os) => {
                let mut v = Vec::with_capacity(os.len());
                for o in os {
                    v.push(self.op(o, prog, cx)?);
                }
                Ok(Val::agg(*k, v))
            }
            Rv::Bin(b, x, y, t) => {
                let x = self.op(x, prog, cx)?;
                let y = self.op(y, prog, cx)?;
                self.bin(*b, &x, &y, *t, cx)
            }
            Rv::Checked(b, x, y, t) => {
                let x = self.op(x, prog, cx)?;
                let y = self.op(y, prog, cx)?;
                let (v, o) = self.arith(*b, &x, &y, *t, cx)?;
                Ok(Val::agg(0, vec![v, Val::bool(o)]))
            }
            Rv::Un(u, x, t) => {
                let x = self.op(x, prog, cx)?;
                match (u, &x, t) {
                    (UnOp::Not, Val::Int(a), Some(t)) => {
                        Ok(Val::Int(!a & mask(t.bits)))
                    }
                    (UnOp::Neg, Val::Int(a), Some(t)) => Ok(Val::Int(a.wrapping_neg() & mask(t.bits))),
                    (UnOp::PtrMetadata, v, _) => {
                        let (_, a, b) = self.slice_of(v, prog)?;
                        Ok(Val::Int((b - a) as u128))
                    }
                    _ => unsup(format!("{:?} on {:?}", u, x)),
                }
            }
            Rv::Discr(p, tb) => match self.read_pl(p, prog)? {
                Val::Agg(v, _) => Ok(Val::Int(tb[v as usize])),
                v => unsup(format!("discriminant of {:?}", v)),
            },
            Rv::Len(p) => {
                let a = self.addr(p, prog)?;
                let (_, a, b) = self.slice_of(&a, prog)?;
                Ok(Val::Int((b - a) as u128))
            }
            Rv::Repeat(o, n) => {
                if *n > 64 {
                    return unsup("large array");
                }
                let v = self.op(o, prog, cx)?;
                Ok(Val::agg(0, vec![v; *n as usize]))
            }
            Rv::IntCast(o, a, b) => match self.op(o, prog, cx)? {
                Val::Int(x) => Ok(Val::Int(if a.signed { sext(x, *a) as u128 & mask(b.bits) } else { x & mask(b.bits) })),
                v @ Val::AtLeast(_) => Ok(v),
                v => unsup(format!("cast of {:?}", v)),
            },
            Rv::NonZero(o) => match self.op(o, prog, cx)? {
                Val::Int(0) => Ok(Val::none()),
                v @ Val::Int(_) => Ok(Val::some(v)),
                v => unsup(format!("NonZero of {:?}", v)),
            },
            Rv::Bad(e) => unsup(e.clone()),
        }
    }
}


pub fn ordering(c: std::cmp::Ordering) -> Val {
    Val::agg(
        match c {
            std::cmp::Ordering::Less => 0,
            std::cmp::Ordering::Equal => 1,
            std::cmp::Ordering::Greater => 2,
        },
        vec![],
    )
}
pub fn mask(bits: u32) -> u128 {
    if bits >= 128 {
        u128::MAX
    } else {
        (1u128 << bits) - 1
    }
}
pub fn sext(x: u128, t: IntT) -> i128 {
    if !t.signed || t.bits >= 128 {
        return x as i128;
    }
    let sh = 128 - t.bits;
    ((x << sh) as i128) >> sh
}
/// Order-preserving signed picture of a value of the type.
pub fn pic(x: u128, t: IntT) -> i128 {
    if t.signed {
        sext(x, t)
    } else if t.bits == 128 {
        (x ^ (1u128 << 127)) as i128
    } else {
        x as i128
    }
}
pub fn range(t: IntT) -> (i128, i128) {
    if t.bits == 128 {
        return (i128::MIN, i128::MAX);
    }
    if t.signed {
        (-(1i128 << (t.bits - 1)), (1i128 << (t.bits - 1)) - 1)
    } else {
        (0, (1i128 << t.bits) - 1)
    }
}

// ---------------------------------------------------------------------------
#[derive(Default, Clone)]
pub struct Stats {
    pub steps: u64,
    pub states: u64,
    pub merged: u64,
    pub forks: u64,
    pub paths: u64,
    pub pruned: u64,
    pub checks: BTreeMap<String, u64>,
    pub reached: BTreeMap<String, u64>,
    pub incomplete: BTreeMap<String, u64>,
    pub repo_blocks: HashMap<(u32, u32), u64>,
    pub exhausted: bool,
    pub max_tree: usize,
    /// per function: steps, new states, pruned
    pub prof: HashMap<String, [u64; 3]>,
}
#[derive(Clone)]
pub struct Report {
    pub key: String,
    pub what: String,
    pub text: String,
    pub count: u64,
}

#[derive(Clone, Default)]
pub struct Node {
    func: u32,
    bb: u32,
    ends: bool,
}
const ENDLESS: &str = "repeats without an end";

pub struct Engine {
    pub prog: Prog,
    pub cx: Ctx,
    pub seen: HashMap<u128, u32>,
    /// recorded states: where, and whether something ends after it without another
    pub nodes: Vec<Node>,
    pub edges: Vec<(u32, u32)>,
    pub stats: Stats,
    pub reports: BTreeMap<String, Report>,
    pub budget: u64,
    pub deadline: std::time::Instant,
    pub shard: Option<(usize, usize)>,
    pub harness: String,
    pub max_reports: usize,
    pub verbose: bool,
    pub profile: bool,
}

impl Engine {
    pub fn start(&mut self, id: u32, fin: bool) -> Result<State, String> {
        let f = self.prog.func(id)?;
        let locals = vec![Val::Uninit; f.nlocals];
        Ok(State {
            frames: vec![Rc::new(Frame { func: f, bb: 0, locals })],
            heap: vec![],
            line: Line::new(fin),
            syms: vec![],
            lens: vec![],
            ghosts: [(Val::Uninit, false), (Val::Uninit, false)],
            blur: false,
            heads: vec![],
            sized: false,
            steps: None,
            at_term: false,
            trace: Trace::default(),
            node: 0,
        })
    }
    /// True when the exploration has to stop.
    fn spent(&mut self) -> bool {
        self.stats.steps += 1;
        if self.stats.steps >= self.budget
            || (self.stats.steps & 0xfff == 0 && std::time::Instant::now() > self.deadline)
            || (self.stats.steps & 0xffff == 0 && memory() > MEMORY)
            || self.reports.len() >= self.max_reports
        {
            self.stats.exhausted = true;
            return true;
        }
        false
    }
    pub fn explore(&mut self, init: State) {
        let mut stack = vec![init];
        if let Some((i, n)) = self.shard {
            // every process explores the same breadth-first prefix, then its share
            let mut queue: std::collections::VecDeque<State> = stack.drain(..).collect();
            while queue.len() < 64 * n {
                let Some(st) = queue.pop_front() else { break };
                let mut cur = Some(st);
                while let Some(st) = cur.take() {
                    if self.spent() {
                        return;
                    }
                    let mut more = vec![];
                    cur = self.step(st, &mut more);
                    if !more.is_empty() {
                        queue.extend(more);
                        queue.extend(cur.take());
                    }
                }
            }
            for (k, s) in queue.into_iter().enumerate() {
                if k % n == i {
                    stack.push(s);
                } else {
                    self.ends(s.node);
                }
            }
            stack.reverse();
        }
        while let Some(st) = stack.pop() {
            let mut cur = Some(st);
            while let Some(st) = cur.take() {
                if self.spent() {
                    return;
                }
                cur = self.step(st, &mut stack);
            }
        }
        self.endless();
    }
    fn ends(&mut self, n: u32) {
        if let Some(x) = self.nodes.get_mut(n as usize) {
            x.ends = true;
        }
    }
    /// Every recorded state has been explored to the next ones: one from which
    /// no path leads to an end is repeated for ever.
    fn endless(&mut self) {
        let n = self.nodes.len();
        let mut off = vec![0u32; n + 1];
        for (_, b) in &self.edges {
            off[*b as usize + 1] += 1;
        }
        for i in 0..n {
            off[i + 1] += off[i];
        }
        let mut from = vec![0u32; self.edges.len()];
        let mut at = off.clone();
        for (a, b) in &self.edges {
            from[at[*b as usize] as usize] = *a;
            at[*b as usize] += 1;
        }
        let mut ok: Vec<bool> = self.nodes.iter().map(|x| x.ends).collect();
        let mut work: Vec<u32> = (0..n as u32).filter(|i| ok[*i as usize]).collect();
        while let Some(b) = work.pop() {
            for a in &from[off[b as usize] as usize..off[b as usize + 1] as usize] {
                if !std::mem::replace(&mut ok[*a as usize], true) {
                    work.push(*a);
                }
            }
        }
        // those the loop consists of: the last ones recorded
        let mut places: BTreeMap<String, u64> = BTreeMap::new();
        for i in (1..n).filter(|i| !ok[*i]) {
            let Some(f) = &self.prog.fns[self.nodes[i].func as usize].func else { continue };
            let b = &f.blocks[self.nodes[i].bb as usize];
            *places.entry(format!("{}{}  at {}:{}", if f.is_repo { "* " } else { "  " }, short_fn(&f.name), b.file, b.line)).or_default() += 1;
        }
        if places.is_empty() {
            return;
        }
        let mut order: Vec<&String> = places.keys().collect();
        order.sort_by_key(|x| !x.starts_with('*'));
        let first = order[0].clone();
        let key = format!("{} | {} | {}", self.harness, ENDLESS, first);
        let list: Vec<String> = order.into_iter().take(20).cloned().collect();
        let text = format!("no path leads from these loop heads to an end, whatever the input may still turn out to be:\n  {}\n", list.join("\n  "));
        self.reports.insert(key.clone(), Report { key, what: ENDLESS.into(), text, count: places.values().sum() });
    }
    fn step(&mut self, mut st: State, stack: &mut Vec<State>) -> Option<State> {
        let t = st.top();
        let func = st.frames[t].func.clone();
        let bb = st.frames[t].bb as usize;
        if self.profile {
            self.stats.prof.entry(format!("{}#{}", func.name, bb)).or_default()[0] += 1;
        }
        if !st.at_term && func.loop_head[bb] && !self.fresh(&mut st) {
            return None;
        }
        if !st.at_term && func.is_repo {
            *self.stats.repo_blocks.entry((func.id, bb as u32)).or_insert(0) += 1;
        }
        let blk = &func.blocks[bb];
        let fork = if st.at_term { blk.term_forks } else { blk.stmt_forks };
        self.cx.begin();
        if !fork {
            // cannot fork, except for a switch on an abstract number, which
            // leaves the state untouched before it chooses
            return match self.exec(&mut st, &func, blk) {
                Ok(true) => Some(st),
                Ok(false) => {
                    self.ends(st.node);
                    self.stats.paths += 1;
                    None
                }
                Err(s) => {
                    self.stopped(&st, s);
                    None
                }
            };
        }
        let snap = st.clone();
        let mut first: Option<State> = None;
        let mut cur = Some(st);
        loop {
            let mut s = match cur.take() {
                Some(s) => s,
                None => snap.clone(),
            };
            let r = self.exec(&mut s, &func, blk);
            let forked = self.cx.forked();
            match r {
                Ok(false) => {
                    self.ends(s.node);
                    self.stats.paths += 1
                }
                Ok(true) => {
                    if first.is_none() {
                        first = Some(s);
                    } else {
                        self.stats.forks += 1;
                        stack.push(s);
                    }
                }
                Err(e) => self.stopped(&s, e),
            }
            if !forked || !self.cx.advance() {
                break;
            }
        }
        first
    }
    fn exec(&mut self, st: &mut State, func: &Rc<Func>, blk: &Blk) -> Res<bool> {
        let cont = || Ok(true);
        let prog = &self.prog;
        let cx = &mut self.cx;
        let t = st.top();
        if !st.at_term {
            for s in &blk.st {
                match s {
                    St::Assign(p, r) => {
                        let v = st.rvalue(r, prog, cx)?;
                        st.write_pl(p, v, prog)?;
                    }
                    St::Kill(l) => {
                        if !st.frames[t].locals[*l as usize].is_uninit() {
                            Rc::make_mut(&mut st.frames[t]).locals[*l as usize] = Val::Uninit;
                        }
                    }
                    St::SetDiscr(p, v) => {
                        let old = st.read_pl(p, prog)?;
                        let new = match old {
                            Val::Agg(_, f) => Val::Agg(*v, f),
                            _ => Val::agg(*v, vec![]),
                        };
                        st.write_pl(p, new, prog)?;
                    }
                    St::Bad(e) => return unsup(e.clone()),
                }
            }
            st.at_term = true;
            return cont();
        }
        let goto = |st: &mut State, b: u32| {
            st.at_term = false;
            Rc::make_mut(&mut st.frames[t]).bb = b;
        };
        match &blk.tm {
            Tm::Goto(b) => {
                goto(st, *b);
                cont()
            }
            Tm::Switch(o, bs, other) => {
                let v = st.op(o, prog, cx)?;
                let target = match v {
                    Val::Int(x) => bs.iter().find(|b| b.0 == x).map(|b| b.1).unwrap_or(*other),
                    Val::AtLeast(n) if bs.iter().all(|b| b.0 < n) => *other,
                    v => return unsup(format!("branch on {:?}", v)),
                };
                if func.is_repo {
                    st.trace.push((func.clone(), st.frames[t].bb, target));
                }
                goto(st, target);
                cont()
            }
            Tm::Return => {
                let ret = st.frames[t].locals[0].clone();
                if t == 0 {
                    return Ok(false);
                }
                st.frames.pop();
                let caller = st.frames[t - 1].clone();
                match &caller.func.blocks[caller.bb as usize].tm {
                    Tm::Call { dest, target: Some(b), .. } => {
                        st.write_pl(dest, ret, prog)?;
                        st.at_term = false;
                        Rc::make_mut(&mut st.frames[t - 1]).bb = *b;
                    }
                    _ => return unsup("return to a call without target"),
                }
                // a loop head is recorded when it is entered, and only once
                let c = &st.frames[t - 1];
                let recorded_there = c.func.loop_head[c.bb as usize];
                drop(caller);
                if func.merges && func.blocks.len() > 3 && !recorded_there && !self.fresh(st) {
                    return Err(Stop::Merged);
                }
                cont()
            }
            Tm::Unreachable => Err(Stop::Violation("undefined behaviour: unreachable code reached".into())),
            Tm::Dead => Err(Stop::Prune),
            Tm::Bad(e) => unsup(e.clone()),
            Tm::Assert { cond, expected, msg, target } => {
                let v = st.op(cond, prog, cx)?;
                match v {
                    Val::Int(x) => {
                        if (x != 0) == *expected {
                            goto(st, *target);
                            cont()
                        } else {
                            Err(Stop::Violation(format!("panic: {}", msg)))
                        }
                    }
                    v => unsup(format!("assert on {:?}", v)),
                }
            }
            Tm::Call { callee, args, dest, target } => {
                let id = match callee {
                    Callee::Fn(i) => *i,
                    Callee::Indirect(o) => match st.op(o, prog, cx)? {
                        Val::Fn(i) => i,
                        v => return unsup(format!("call of {:?}", v)),
                    },
                    Callee::Spread(Some(i)) => *i,
                    Callee::Spread(None) => {
                        let mut f = st.op(&args[0], prog, cx)?;
                        while let Val::Ref(p) = &f {
                            f = st.load(p, prog)?;
                        }
                        match f {
                            Val::Fn(i) => i,
                            v => return unsup(format!("call of {:?}", v)),
                        }
                    }
                    Callee::Bad(e) => return unsup(e.clone()),
                };
                let mut av = Vec::with_capacity(args.len());
                for a in args {
                    av.push(st.op(a, prog, cx)?);
                }
                if let Callee::Spread(_) = callee {
                    match av.pop() {
                        Some(Val::Agg(_, f)) => av = (*f).clone(),
                        v => return unsup(format!("argument tuple {:?}", v)),
                    }
                }
                let kind = prog.fns[id as usize].kind.clone();
                match &*kind {
                    FnKind::Bad(e) => unsup(e.clone()),
                    FnKind::Ctor(v) => {
                        let r = Val::agg(*v, av);
                        let Some(b) = target else { return unsup("ctor without target") };
                        st.write_pl(dest, r, prog)?;
                        goto(st, *b);
                        cont()
                    }
                    FnKind::Builtin(b) => {
                        let r = builtins::exec(b, st, av, self)?;
                        let Some(bt) = target else { return unsup("builtin without target") };
                        st.write_pl(dest, r, &self.prog)?;
                        goto(st, *bt);
                        cont()
                    }
                    FnKind::Body => {
                        let f = match self.prog.func(id) {
                            Ok(f) => f,
                            Err(e) => return unsup(e),
                        };
                        if st.frames.len() > 200 {
                            return unsup("call depth");
                        }
                        let mut locals = vec![Val::Uninit; f.nlocals];
                        let pointer = matches!(callee, Callee::Indirect(_) | Callee::Spread(_));
                        if f.is_closure && pointer && av.len() + 1 == f.argc {
                            // a function pointer made from a closure: nothing is captured
                            for (i, x) in av.into_iter().enumerate() {
                                locals[2 + i] = x;
                            }
                        } else if f.is_closure && av.len() == 2 {
                            let tup = av.pop().unwrap();
                            locals[1] = av.pop().unwrap();
                            match tup {
                                Val::Agg(_, fs) => {
                                    for (i, x) in fs.iter().enumerate() {
                                        locals[2 + i] = x.clone();
                                    }
                                }
                                v => return unsup(format!("closure arguments {:?}", v)),
                            }
                        } else {
                            if av.len() != f.argc {
                                return unsup(format!("argument count of {}", f.name));
                            }
                            for (i, x) in av.into_iter().enumerate() {
                                locals[1 + i] = x;
                            }
                        }
                        st.frames.push(Rc::new(Frame { func: f, bb: 0, locals }));
                        st.at_term = false;
                        cont()
                    }
                }
            }
        }
    }

    // ---- reports -----------------------------------------------------------
    fn stopped(&mut self, st: &State, s: Stop) {
        if !matches!(s, Stop::Merged) {
            self.ends(st.node);
        }
        match s {
            Stop::Merged => {}
            Stop::Prune => {
                self.stats.pruned += 1;
                if self.profile {
                    let f = &st.frames[st.top()];
                    self.stats.prof.entry(format!("{}#{}", f.func.name, f.bb)).or_default()[2] += 1;
                }
            }
            Stop::Unsupported(m) => {
                let w = self.where_(st);
                let n = self.stats.incomplete.entry(format!("{} [{}]", m, w)).or_insert(0);
                *n += 1;
                if self.verbose && *n == 1 {
                    eprintln!("INCOMPLETE {}\n{}", m, self.describe(st));
                }
            }
            Stop::Violation(m) => {
                self.stats.paths += 1;
                if !settle(&mut st.clone()) {
                    return;
                }
                if st.steps.is_some() && m != WALKS {
                    return;
                }
                if st.blur && st.steps.is_none() {
                    let w = self.where_(st);
                    let m = format!("{} [{}]: the summaries used do not say enough about the two sets", m, w);
                    *self.stats.incomplete.entry(m).or_insert(0) += 1;
                    return;
                }
                let fns: Vec<String> = self.repo_stack(st).into_iter().map(|x| x.0).collect();
                let key = format!("{} | {} | {}", self.harness, m, fns.join(" < "));
                if let Some(r) = self.reports.get_mut(&key) {
                    r.count += 1;
                    return;
                }
                let text = self.describe(st);
                self.reports.insert(key.clone(), Report { key, what: m, text, count: 1 });
            }
        }
    }
    fn where_(&self, st: &State) -> String {
        let f = &st.frames[st.top()];
        let b = &f.func.blocks[f.bb as usize];
        let mut s = format!("{} {}:{}", f.func.name, b.file, b.line);
        if let Some((n, w)) = self.repo_stack(st).into_iter().next() {
            s.push_str(&format!(" in {} {}", n, w));
        }
        s
    }
    /// Innermost first: (function, file:line)
    fn repo_stack(&self, st: &State) -> Vec<(String, String)> {
        st.frames
            .iter()
            .rev()
            .filter(|f| f.func.is_repo)
            .map(|f| {
                let b = &f.func.blocks[f.bb as usize];
                (short_fn(&f.func.name), format!("{}:{}", b.file, b.line))
            })
            .collect()
    }
    pub fn describe(&self, st: &State) -> String {
        use std::fmt::Write;
        let mut o = String::new();
        let conc: HashMap<u32, i64> = st.line.concretise().into_iter().collect();
        let name = |c: u32| conc.get(&c).map(|v| v.to_string()).unwrap_or_else(|| format!("?{}", c));
        let _ = writeln!(o, "call stack (innermost first):");
        for f in st.frames.iter().rev() {
            let b = &f.func.blocks[f.bb as usize];
            let _ = writeln!(o, "  {}{}  at {}:{}", if f.func.is_repo { "* " } else { "  " }, f.func.name, b.file, b.line);
        }
        let _ = writeln!(
            o,
            "element values (example numbering; {}):",
            if st.line.fin { "neighbours may be adjacent" } else { "dense or discrete order" }
        );
        let mut cells: Vec<String> = vec![];
        for (i, c) in st.line.cls.iter().enumerate() {
            let mut s = name(*c);
            if st.line.fin {
                if i == 0 && st.line.gaps[0] == crate::line::Gap::One {
                    s.push_str("(min)");
                }
                if i + 1 == st.line.cls.len() && st.line.gaps[i + 1] == crate::line::Gap::One {
                    s.push_str("(max)");
                }
            }
            cells.push(s);
        }
        let _ = writeln!(o, "  {}", cells.join(" < "));
        for (i, f) in st.frames.iter().enumerate() {
            if !(f.func.is_repo || i == 0) {
                continue;
            }
            let _ = writeln!(o, "variables of {}:", f.func.name);
            for (n, l) in &f.func.var_names {
                let v = &f.locals[*l as usize];
                if !v.is_uninit() {
                    let _ = writeln!(o, "  {} = {}", n, self.show(st, v, &name, 0));
                }
            }
        }
        // branches taken inside the library, oldest first
        let mut br = vec![];
        let mut cur = &st.trace.0;
        while let Some(n) = cur {
            let (f, b, t) = &n.what;
            let from = &f.blocks[*b as usize];
            let to = &f.blocks[*t as usize];
            br.push(format!("{} {}:{} -> line {}", short_fn(&f.name), from.file, from.line, to.line));
            cur = &n.prev.0;
            if br.len() >= if std::env::var_os("ANALYZER_TRACE").is_some() { 100000 } else { 60 } {
                break;
            }
        }
        br.reverse();
        let _ = writeln!(o, "branches inside the library (last {}):", br.len());
        for b in br {
            let _ = writeln!(o, "  {}", b);
        }
        o
    }
    fn show(&self, st: &State, v: &Val, name: &dyn Fn(u32) -> String, d: usize) -> String {
        if d > 6 {
            return "..".into();
        }
        match v {
            Val::Uninit | Val::Free => "_".into(),
            Val::Int(i) => i.to_string(),
            Val::Tok(c) => format!("v{}", name(*c)),
            Val::Agg(k, f) => {
                let a: Vec<String> = f.iter().map(|x| self.show(st, x, name, d + 1)).collect();
                format!("#{}({})", k, a.join(", "))
            }
            Val::Ref(p) => match st.resolve(p, &self.prog) {
                Ok(v) => format!("&{}", self.show(st, v, name, d + 1)),
                Err(_) => "&?".into(),
            },
            Val::Set(t) => show_tree(t, name),
            Val::SetIter(i) => match &i.src {
                SetSrc::Owned(t) => format!("iter[{:?}..{:?}] of {}", i.front, i.back, show_tree(t, name)),
                SetSrc::Borrow(_) => format!("iter[{:?}..{:?}]", i.front, i.back),
            },
            Val::Vec(a) => {
                let e: Vec<String> = a.elems.iter().map(|x| self.show(st, x, name, d + 1)).collect();
                format!("[{}{}]", e.join(", "), match a.sum { Some((m, n)) => format!(", ..{}/{}", m as u8, n as u8), None if a.more => ", ..".into(), None => String::new() })
            }
            v => format!("{:?}", v),
        }
    }

    // ---- merging -----------------------------------------------------------
    /// Simplify the state and record it; false when an equal one was seen.
    pub fn fresh(&mut self, st: &mut State) -> bool {
        if !settle(st) {
            self.ends(st.node);
            self.stats.pruned += 1;
            return false;
        }
        let h = self.simplify(st);
        let new = self.nodes.len() as u32;
        let node = *self.seen.entry(h).or_insert(new);
        self.edges.push((st.node, node));
        if node == new {
            st.node = new;
            let f = &st.frames[st.top()];
            self.nodes.push(Node { func: f.func.id, bb: f.bb, ends: false });
            self.stats.states += 1;
            if self.profile {
                let f = &st.frames[st.top()];
                self.stats.prof.entry(format!("{}#{}", f.func.name, f.bb)).or_default()[1] += 1;
            }
            true
        } else {
            self.stats.merged += 1;
            false
        }
    }
    fn simplify(&mut self, st: &mut State) -> u128 {
        // 1. what is still reachable
        let n = st.frames.len();
        let mut marks: Vec<Vec<u64>> = Vec::with_capacity(n);
        let mut hm = vec![false; st.heap.len()];
        for (i, f) in st.frames.iter().enumerate() {
            let b = &f.func.blocks[f.bb as usize];
            if i + 1 == n {
                marks.push(f.func.live_in[f.bb as usize].clone());
            } else {
                marks.push(b.live_across.clone());
            }
        }
        // what is needed, and which part of it (bit i: field i)
        let mut work: Vec<(Base, u64)> = vec![];
        for (i, m) in marks.iter().enumerate() {
            for (l, x) in m.iter().enumerate() {
                if *x != 0 {
                    work.push((Base::Local { frame: i as u32, local: l as u32 }, *x));
                }
            }
        }
        while let Some((b, bits)) = work.pop() {
            let v = match b {
                Base::Local { frame, local } => &st.frames[frame as usize].locals[local as usize],
                Base::Heap(i) => &st.heap[i as usize],
                Base::Const(_) => continue,
            };
            let mut found = |p: &Ptr| match p.base {
                Base::Local { frame, local } => {
                    if let Some(m) = marks.get_mut(frame as usize) {
                        let want = match p.path.first() {
                            Some(k) if *k < 62 => 1u64 << *k,
                            _ => u64::MAX,
                        };
                        let new = want & !m[local as usize];
                        if new != 0 {
                            m[local as usize] |= new;
                            work.push((p.base, new));
                        }
                    }
                }
                Base::Heap(i) => {
                    if !hm[i as usize] {
                        hm[i as usize] = true;
                        work.push((p.base, u64::MAX));
                    }
                }
                Base::Const(_) => {}
            };
            match v {
                Val::Agg(_, fs) => {
                    for (k, x) in fs.iter().enumerate() {
                        if bits == u64::MAX || k >= 62 || bits >> k & 1 == 1 {
                            refs(x, &mut found);
                        }
                    }
                }
                v => refs(v, &mut found),
            }
        }
        for (i, m) in marks.iter().enumerate() {
            let dead = |l: usize, x: u64| -> bool {
                let v = &st.frames[i].locals[l];
                match v {
                    Val::Uninit => false,
                    _ if x == 0 => true,
                    Val::Agg(_, fs) if x != u64::MAX => fs.iter().enumerate().any(|(k, f)| k < 62 && x >> k & 1 == 0 && !f.is_uninit()),
                    _ => false,
                }
            };
            let which: Vec<usize> = m.iter().enumerate().filter(|(l, x)| dead(*l, **x)).map(|x| x.0).collect();
            if !which.is_empty() {
                let f = Rc::make_mut(&mut st.frames[i]);
                for l in which {
                    let x = m[l];
                    if x == 0 {
                        f.locals[l] = Val::Uninit;
                    } else if let Val::Agg(_, fs) = &mut f.locals[l] {
                        for (k, v) in Rc::make_mut(fs).iter_mut().enumerate() {
                            if k < 62 && x >> k & 1 == 0 {
                                *v = Val::Uninit;
                            }
                        }
                    }
                }
            }
        }
        for (i, x) in hm.iter().enumerate() {
            if !*x {
                st.heap[i] = Val::Free;
            }
        }
        while matches!(st.heap.last(), Some(Val::Free)) {
            st.heap.pop();
        }
        // 2. live classes, and folding of dead cuts
        let mut live: HashSet<u32> = HashSet::new();
        let mut dirty = false;
        for f in &st.frames {
            for v in &f.locals {
                classes(v, false, &mut |c| {
                    live.insert(c);
                });
            }
        }
        for v in &st.heap {
            classes(v, false, &mut |c| {
                live.insert(c);
            });
        }
        for (v, _) in &st.ghosts {
            classes(v, false, &mut |c| {
                live.insert(c);
            });
        }
        live.extend(st.line.wit);
        live.extend(st.lens.iter().flat_map(|x| x.0.iter().copied()));
        // a marker one step away from a live value is kept where it is
        let mut near = live.clone();
        if st.line.fin {
            for (i, g) in st.line.gaps.iter().enumerate() {
                if *g == crate::line::Gap::One && i > 0 && i < st.line.cls.len() {
                    let (a, b) = (st.line.cls[i - 1], st.line.cls[i]);
                    if live.contains(&a) {
                        near.insert(b);
                    }
                    if live.contains(&b) {
                        near.insert(a);
                    }
                }
            }
        }
        let is_live = |c: u32| near.contains(&c);
        for i in 0..st.frames.len() {
            for l in 0..st.frames[i].locals.len() {
                if foldable(&st.frames[i].locals[l], &is_live) {
                    compact_val(&mut Rc::make_mut(&mut st.frames[i]).locals[l], &is_live, &st.line);
                    dirty = true;
                }
            }
        }
        for i in 0..st.heap.len() {
            if foldable(&st.heap[i], &is_live) {
                compact_val(&mut st.heap[i], &is_live, &st.line);
                dirty = true;
            }
        }
        let _ = dirty;
        // 3. forget classes nothing mentions
        let mut used: HashSet<u32> = live;
        for f in &st.frames {
            for v in &f.locals {
                classes(v, true, &mut |c| {
                    used.insert(c);
                });
            }
        }
        for v in &st.heap {
            classes(v, true, &mut |c| {
                used.insert(c);
            });
        }
        let dead: Vec<u32> = st.line.cls.iter().copied().filter(|c| !used.contains(c)).collect();
        for c in dead {
            st.line.remove(c);
        }
        st.line.norm();
        st.heads.retain(|x| used.contains(&x.0));
        if let Some(s) = &mut st.steps {
            s.retain(|x| used.contains(&x.0));
        }
        // 4. hash
        let rank: HashMap<u32, u32> = st.line.cls.iter().enumerate().map(|(i, c)| (*c, i as u32)).collect();
        let mut h = H128::new();
        let mut hs = Hasher2 { rank: &rank, heap: HashMap::new(), queue: vec![], h: &mut h };
        hs.h.u(st.frames.len() as u64);
        for f in &st.frames {
            hs.h.u(f.func.id as u64);
            hs.h.u(f.bb as u64);
            for v in &f.locals {
                hs.val(v);
            }
        }
        let mut k = 0;
        while k < hs.queue.len() {
            let i = hs.queue[k];
            k += 1;
            let v = st.heap[i as usize].clone();
            hs.val(&v);
        }
        for g in &st.line.gaps {
            hs.h.u(*g as u64);
        }
        hs.h.u(st.line.wit.map(|w| rank[&w] as u64 + 1).unwrap_or(0));
        hs.h.u(st.sized as u64 | (st.blur as u64) << 1);
        for (v, more) in &st.ghosts {
            hs.h.u(*more as u64);
            hs.val(v);
        }
        for (k, s) in &st.lens {
            for c in k {
                hs.h.u(rank[c] as u64);
            }
            hs.h.u(1000 + *s as u64);
        }
        let mut heads: Vec<u64> = st.heads.iter().map(|(c, y)| 2 * rank[c] as u64 + *y as u64).collect();
        heads.sort_unstable();
        for x in heads {
            hs.h.u(2000 + x);
        }
        if let Some(s) = &st.steps {
            let mut s: Vec<u64> = s.iter().map(|(c, n)| 16 * rank[c] as u64 + *n as u64).collect();
            s.sort_unstable();
            for x in s {
                hs.h.u(3000 + x);
            }
            hs.h.u(2999);
        }
        for (a, b) in &st.syms {
            hs.h.u(*a as u64);
            hs.h.u((*a >> 64) as u64);
            hs.h.u(*b as u64);
            hs.h.u((*b >> 64) as u64);
        }
        h.fin()
    }
}

fn show_tree(t: &Tree, name: &dyn Fn(u32) -> String) -> String {
    if let Some((m, c, _)) = t.lazy {
        return format!("{{any{} markers, witness {}}}", if c { " canonical" } else { "" }, if m { "inside" } else { "outside" });
    }
    let mut s = String::from("{");
    for (i, (k, e)) in t.ents.iter().enumerate() {
        let kn = match k {
            Key::Neg => "-inf".to_string(),
            Key::Pos => "+inf".to_string(),
            Key::C(c) => format!("v{}", name(*c)),
        };
        match e {
            Some(kd) => s.push_str(&format!("{:?}@{}", kd, kn)),
            None => s.push_str(&format!("|{}", kn)),
        }
        if i < t.zones.len() {
            match t.zones[i] {
                crate::tree::Zone::Empty => s.push(' '),
                crate::tree::Zone::Run { may, a, b, canon, .. } => {
                    s.push_str(&format!(" <{}markers {}->{}{}> ", if may { "maybe " } else { "" }, a as u8, b as u8, if canon { " canonical" } else { "" }))
                }
            }
        }
    }
    s.push('}');
    s
}

pub fn short_fn(n: &str) -> String {
    n.replace("normalize_interval::", "").replace("spec::rt::", "")
}

fn refs(v: &Val, f: &mut dyn FnMut(&Ptr)) {
    match v {
        Val::Ref(p) | Val::Slice(p, ..) | Val::SliceIter(p, ..) => f(p),
        Val::Agg(_, fs) => fs.iter().for_each(|x| refs(x, f)),
        Val::SetIter(i) => {
            if let SetSrc::Borrow(p) = &i.src {
                f(p)
            }
        }
        Val::Vec(a) | Val::VecIter(a, ..) => a.elems.iter().for_each(|x| refs(x, f)),
        Val::Opaque(_, fs) => fs.iter().for_each(|x| refs(x, f)),
        _ => {}
    }
}
/// Element classes mentioned by a value; those that are only cuts of a marker
/// set are included when `cuts`.
fn classes(v: &Val, cuts: bool, f: &mut dyn FnMut(u32)) {
    match v {
        Val::Tok(c) => f(*c),
        Val::Agg(_, fs) => fs.iter().for_each(|x| classes(x, cuts, f)),
        Val::Set(t) => {
            if cuts {
                t.classes().for_each(f)
            }
        }
        Val::SetIter(i) => {
            for k in [i.front, i.back] {
                if let Some(Key::C(c)) = k {
                    f(c)
                }
            }
            if let SetSrc::Owned(t) = &i.src {
                if cuts {
                    t.classes().for_each(f)
                }
            }
        }
        Val::Vec(a) | Val::VecIter(a, ..) => a.elems.iter().for_each(|x| classes(x, cuts, f)),
        Val::Str(ps) => ps.iter().for_each(|p| {
            if let Piece::Disp(c) | Piece::Tail(c) = p {
                f(*c)
            }
        }),
        Val::Opaque(_, fs) => fs.iter().for_each(|x| classes(x, cuts, f)),
        _ => {}
    }
}
/// Bring every set to its tightest form; false when the state is impossible.
fn settle(st: &mut State) -> bool {
    fn sets(v: &Val, f: &mut dyn FnMut(&Tree)) {
        match v {
            Val::Agg(_, fs) => fs.iter().for_each(|x| sets(x, f)),
            Val::Set(t) => f(t),
            Val::SetIter(i) => {
                if let SetSrc::Owned(t) = &i.src {
                    f(t)
                }
            }
            Val::Vec(a) | Val::VecIter(a, ..) => a.elems.iter().for_each(|x| sets(x, f)),
            _ => {}
        }
    }
    fn tight(v: &mut Val, line: &Line) -> bool {
        let mut loose = false;
        sets(v, &mut |t| loose |= t.loose(line));
        if !loose {
            return true;
        }
        match v {
            Val::Agg(_, fs) => Rc::make_mut(fs).iter_mut().all(|x| tight(x, line)),
            Val::Set(t) => Rc::make_mut(t).settle(line).is_ok(),
            Val::SetIter(i) => match &mut Rc::make_mut(i).src {
                SetSrc::Owned(t) => Rc::make_mut(t).settle(line).is_ok(),
                _ => true,
            },
            Val::Vec(a) | Val::VecIter(a, ..) => Rc::make_mut(a).elems.iter_mut().all(|x| tight(x, line)),
            _ => true,
        }
    }
    if !st.line.fin {
        return true;
    }
    let State { frames, heap, line, .. } = st;
    let mut spread = |v: &Val| sets(v, &mut |t| t.spread(line));
    frames.iter().for_each(|f| f.locals.iter().for_each(&mut spread));
    heap.iter().for_each(&mut spread);
    heap.iter_mut().all(|v| tight(v, line))
        && frames.iter_mut().all(|f| {
            let mut loose = false;
            f.locals.iter().for_each(|v| sets(v, &mut |t| loose |= t.loose(line)));
            !loose || Rc::make_mut(f).locals.iter_mut().all(|v| tight(v, line))
        })
}
fn foldable(v: &Val, live: &dyn Fn(u32) -> bool) -> bool {
    match v {
        Val::Agg(_, fs) => fs.iter().any(|x| foldable(x, live)),
        Val::Set(t) => t.foldable(live),
        Val::SetIter(i) => match &i.src {
            SetSrc::Owned(t) => t.foldable(live),
            _ => false,
        },
        Val::Vec(a) | Val::VecIter(a, ..) => a.elems.iter().any(|x| foldable(x, live)),
        _ => false,
    }
}
fn compact_val(v: &mut Val, live: &dyn Fn(u32) -> bool, line: &Line) {
    match v {
        Val::Agg(_, fs) => {
            for x in Rc::make_mut(fs) {
                if foldable(x, live) {
                    compact_val(x, live, line);
                }
            }
        }
        Val::Set(t) => Rc::make_mut(t).compact(live, line),
        Val::SetIter(i) => {
            let i = Rc::make_mut(i);
            if let SetSrc::Owned(t) = &mut i.src {
                Rc::make_mut(t).compact(live, line);
            }
        }
        Val::Vec(a) | Val::VecIter(a, ..) => {
            for x in &mut Rc::make_mut(a).elems {
                if foldable(x, live) {
                    compact_val(x, live, line);
                }
            }
        }
        _ => {}
    }
}

// ---- hashing ---------------------------------------------------------------
struct H128 {
    a: u64,
    b: u64,
}
impl H128 {
    fn new() -> H128 {
        H128 { a: 0x243f6a8885a308d3, b: 0x13198a2e03707344 }
    }
    #[inline]
    fn u(&mut self, x: u64) {
        self.a = (self.a ^ x).wrapping_mul(0x9e3779b97f4a7c15);
        self.a ^= self.a >> 29;
        self.b = (self.b.rotate_left(5) ^ x).wrapping_mul(0xc2b2ae3d27d4eb4f);
        self.b ^= self.b >> 31;
    }
    fn fin(self) -> u128 {
        ((self.a as u128) << 64) | self.b as u128
    }
}
impl Hasher for H128 {
    fn finish(&self) -> u64 {
        self.a ^ self.b
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.u(*b as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.u(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.u(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.u(i)
    }
    fn write_usize(&mut self, i: usize) {
        self.u(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.u(i as u64)
    }
}
struct Hasher2<'a> {
    rank: &'a HashMap<u32, u32>,
    heap: HashMap<u32, u32>,
    queue: Vec<u32>,
    h: &'a mut H128,
}
impl Hasher2<'_> {
    fn cls(&mut self, c: u32) {
        let r = self.rank.get(&c).copied().unwrap_or(u32::MAX);
        self.h.u(r as u64);
    }
    fn key(&mut self, k: Key) {
        match k {
            Key::Neg => self.h.u(1),
            Key::Pos => self.h.u(2),
            Key::C(c) => {
                self.h.u(3);
                self.cls(c);
            }
        }
    }
    fn ptr(&mut self, p: &Ptr) {
        match p.base {
            Base::Local { frame, local } => {
                self.h.u(11);
                self.h.u(frame as u64);
                self.h.u(local as u64);
            }
            Base::Heap(i) => {
                let n = self.heap.len() as u32;
                let k = *self.heap.entry(i).or_insert(n);
                if k == n {
                    self.queue.push(i);
                }
                self.h.u(12);
                self.h.u(k as u64);
            }
            Base::Const(i) => {
                self.h.u(13);
                self.h.u(i as u64);
            }
        }
        self.h.u(p.path.len() as u64);
        for i in p.path.iter() {
            self.h.u(*i as u64);
        }
    }
    fn tree(&mut self, t: &Tree) {
        self.h.u(match t.lazy { None => 0, Some((m, c, v)) => 1 + 4 * v as u64 + 2 * m as u64 + c as u64 });
        self.h.u(t.tag as u64);
        self.h.u(t.ents.len() as u64);
        for (k, e) in &t.ents {
            self.key(*k);
            self.h.u(match e {
                None => 99,
                Some(k) => *k as u64,
            });
        }
        for z in &t.zones {
            z.hash(self.h);
        }
    }
    fn val(&mut self, v: &Val) {
        match v {
            Val::Uninit | Val::Free => self.h.u(20),
            Val::Int(i) => {
                self.h.u(21);
                self.h.u(*i as u64);
                self.h.u((*i >> 64) as u64);
            }
            Val::Sym(s, o) => {
                self.h.u(22);
                self.h.u(*s as u64);
                self.h.u(*o as u64);
            }
            Val::AtLeast(n) => {
                self.h.u(23);
                self.h.u(*n as u64);
            }
            Val::Tok(c) => {
                self.h.u(24);
                self.cls(*c);
            }
            Val::TokConst(b) => {
                self.h.u(25);
                self.h.u(*b as u64);
            }
            Val::Agg(k, f) => {
                self.h.u(26);
                self.h.u(*k as u64);
                self.h.u(f.len() as u64);
                for x in f.iter() {
                    self.val(x);
                }
            }
            Val::Ref(p) => {
                self.h.u(27);
                self.ptr(p);
            }
            Val::Slice(p, a, b) => {
                self.h.u(28);
                self.ptr(p);
                self.h.u(*a as u64);
                self.h.u(*b as u64);
            }
            Val::Fn(i) => {
                self.h.u(29);
                self.h.u(*i as u64);
            }
            Val::Set(t) => {
                self.h.u(30);
                self.tree(t);
            }
            Val::SetIter(i) => {
                self.h.u(31);
                match &i.src {
                    SetSrc::Borrow(p) => self.ptr(p),
                    SetSrc::Owned(t) => self.tree(t),
                }
                self.h.u(i.ends.0 as u64 | (i.ends.1 as u64) << 1);
                for k in [i.front, i.back] {
                    match k {
                        None => self.h.u(0),
                        Some(k) => self.key(k),
                    }
                }
            }
            Val::Vec(a) => {
                self.h.u(32);
                self.h.u(a.more as u64);
                self.h.u(match a.sum { None => 0, Some((m, n)) => 1 + m as u64 + 2 * n as u64 });
                self.h.u(a.elems.len() as u64);
                for x in &a.elems {
                    self.val(x);
                }
            }
            Val::VecIter(a, i, e) => {
                self.h.u(33);
                self.h.u(a.more as u64);
                self.h.u(match a.sum { None => 0, Some((m, n)) => 1 + m as u64 + 2 * n as u64 });
                self.h.u(*e as u64 - *i as u64);
                for x in &a.elems[*i as usize..*e as usize] {
                    self.val(x);
                }
            }
            Val::SliceIter(p, i, e) => {
                self.h.u(34);
                self.ptr(p);
                self.h.u(*i as u64);
                self.h.u(*e as u64);
            }
            Val::Str(ps) => {
                self.h.u(35);
                self.h.u(ps.len() as u64);
                for p in ps.iter() {
                    match p {
                        Piece::Lit(s) => {
                            self.h.u(1);
                            s.hash(self.h);
                        }
                        Piece::Disp(c) => {
                            self.h.u(2);
                            self.cls(*c);
                        }
                        Piece::Tail(c) => {
                            self.h.u(3);
                            self.cls(*c);
                        }
                    }
                }
            }
            Val::Opaque(s, f) => {
                self.h.u(36);
                s.hash(self.h);
                for x in f.iter() {
                    self.val(x);
                }
            }
        }
    }
}
