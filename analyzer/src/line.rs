//! The order domain: finitely many element classes in their total order, with
//! what is known about the distance between neighbours when the element type
//! is discrete.
use crate::ctx::{Ctx, Res, Stop};
use crate::tree::Key;

/// Distance between neighbouring classes (and to the virtual positions just
/// outside the type's minimum and maximum).
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Gap {
    /// exactly one step
    One,
    /// at least two steps
    Two,
    /// at least one step
    Any,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Line {
    /// discrete element type with minimum, maximum, pred and succ
    pub fin: bool,
    pub cls: Vec<u32>,
    /// gaps[i] lies before cls[i]; the last one lies after the last class
    pub gaps: Vec<Gap>,
    pub next: u32,
    /// the point whose membership summaries speak about
    pub wit: Option<u32>,
}

impl Line {
    pub fn new(fin: bool) -> Line {
        Line { fin, cls: vec![], gaps: vec![Gap::Two], next: 0, wit: None }
    }
    pub fn idx(&self, c: u32) -> usize {
        match self.cls.iter().position(|x| *x == c) {
            Some(i) => i,
            None => panic!("class {} not on line {:?}", c, self.cls),
        }
    }
    /// Position of a key: -1 for below everything, n for above everything.
    pub fn pos(&self, k: Key) -> i64 {
        match k {
            Key::Neg => -1,
            Key::Pos => self.cls.len() as i64,
            Key::C(c) => self.idx(c) as i64,
        }
    }
    pub fn cmp(&self, a: u32, b: u32) -> std::cmp::Ordering {
        if a == b {
            return std::cmp::Ordering::Equal;
        }
        self.idx(a).cmp(&self.idx(b))
    }
    pub fn lt(&self, a: Key, b: Key) -> bool {
        self.pos(a) < self.pos(b)
    }
    /// The gap slot `i` can hold a new class strictly inside.
    fn has_room(&self, i: usize) -> bool {
        !self.fin || self.gaps[i] != Gap::One
    }
    fn insert_at(&mut self, i: usize, before: Gap, after: Gap) -> u32 {
        let c = self.next;
        self.next += 1;
        self.cls.insert(i, c);
        self.gaps[i] = before;
        self.gaps.insert(i + 1, after);
        c
    }
    /// A value strictly between two keys: an existing class or a new one.
    pub fn place_between(&mut self, lo: Key, hi: Key, cx: &mut Ctx) -> Res<u32> {
        let p = self.pos(lo);
        let q = self.pos(hi);
        if p >= q {
            return Err(Stop::Prune);
        }
        let mut opts: Vec<(bool, usize)> = vec![];
        let mut i = p + 1; // gap index i lies between class i-1 and class i
        loop {
            if self.has_room(i as usize) {
                opts.push((true, i as usize));
            }
            if i >= q {
                break;
            }
            opts.push((false, i as usize));
            i += 1;
        }
        let k = cx.choose(opts.len())?;
        let (new, i) = opts[k];
        Ok(if new {
            self.insert_at(i, Gap::Any, Gap::Any)
        } else {
            self.cls[i]
        })
    }
    /// Refine gap `i` to be exactly one step (true) or at least two.
    fn split_gap(&mut self, i: usize, cx: &mut Ctx) -> Res<bool> {
        match self.gaps[i] {
            Gap::One => Ok(true),
            Gap::Two => Ok(false),
            Gap::Any => {
                if cx.choose(2)? == 0 {
                    self.gaps[i] = Gap::One;
                    Ok(true)
                } else {
                    self.gaps[i] = Gap::Two;
                    Ok(false)
                }
            }
        }
    }
    pub fn succ(&mut self, c: u32, cx: &mut Ctx) -> Res<Option<u32>> {
        let i = self.idx(c);
        if self.split_gap(i + 1, cx)? {
            return Ok(self.cls.get(i + 1).copied());
        }
        Ok(Some(self.insert_at(i + 1, Gap::One, Gap::Any)))
    }
    pub fn pred(&mut self, c: u32, cx: &mut Ctx) -> Res<Option<u32>> {
        let i = self.idx(c);
        if self.split_gap(i, cx)? {
            return Ok(if i == 0 { None } else { Some(self.cls[i - 1]) });
        }
        Ok(Some(self.insert_at(i, Gap::Any, Gap::One)))
    }
    pub fn min(&mut self, cx: &mut Ctx) -> Res<u32> {
        if self.split_gap(0, cx)? {
            return Ok(self.cls[0]);
        }
        Ok(self.insert_at(0, Gap::One, Gap::Any))
    }
    pub fn max(&mut self, cx: &mut Ctx) -> Res<u32> {
        let n = self.cls.len();
        if self.split_gap(n, cx)? {
            return Ok(self.cls[n - 1]);
        }
        Ok(self.insert_at(n, Gap::Any, Gap::One))
    }
    /// Decide whether the two keys are at least two steps apart.
    pub fn dist2(&mut self, a: Key, b: Key, cx: &mut Ctx) -> Res<bool> {
        let p = self.pos(a);
        let q = self.pos(b);
        if q <= p {
            return Ok(false);
        }
        if q - p >= 2 {
            return Ok(true);
        }
        Ok(!self.split_gap(q as usize, cx)?)
    }
    /// Like `dist2` but without refining: `None` when unknown.
    pub fn dist2_known(&self, a: Key, b: Key) -> Option<bool> {
        let p = self.pos(a);
        let q = self.pos(b);
        if q <= p {
            return Some(false);
        }
        if q - p >= 2 {
            return Some(true);
        }
        match self.gaps[q as usize] {
            Gap::One => Some(false),
            Gap::Two => Some(true),
            Gap::Any => None,
        }
    }
    /// Require at least two steps; prune otherwise.
    pub fn require2(&mut self, a: Key, b: Key) -> Res<()> {
        let p = self.pos(a);
        let q = self.pos(b);
        if q <= p {
            return Err(Stop::Prune);
        }
        if q - p >= 2 {
            return Ok(());
        }
        match self.gaps[q as usize] {
            Gap::One => Err(Stop::Prune),
            _ => {
                self.gaps[q as usize] = Gap::Two;
                Ok(())
            }
        }
    }
    /// Neighbouring keys with nothing in between are known to be one step apart.
    /// How many values lie strictly between, where that is known.
    pub fn room(&self, a: Key, b: Key) -> Option<usize> {
        let (p, q) = (self.pos(a), self.pos(b));
        let known = self.fin && (p + 1..=q).all(|i| self.gaps[i as usize] == Gap::One);
        known.then(|| (q - p - 1) as usize)
    }
    /// Some value lies strictly between.
    pub fn between(&mut self, a: Key, b: Key) {
        let (p, q) = (self.pos(a), self.pos(b));
        if self.fin && q - p == 1 && self.gaps[q as usize] == Gap::Any {
            self.gaps[q as usize] = Gap::Two;
        }
    }
    pub fn no_room(&self, a: Key, b: Key) -> bool {
        let p = self.pos(a);
        let q = self.pos(b);
        self.fin && q - p == 1 && self.gaps[q as usize] == Gap::One
    }
    pub fn remove(&mut self, c: u32) {
        let i = self.idx(c);
        self.cls.remove(i);
        self.gaps.remove(i + 1);
        self.gaps[i] = Gap::Two;
    }
    /// Normalise information that carries no meaning.
    pub fn norm(&mut self) {
        if !self.fin {
            for g in &mut self.gaps {
                *g = Gap::Any;
            }
        }
    }
    /// Concrete integers consistent with the order, for reports.
    pub fn concretise(&self) -> Vec<(u32, i64)> {
        let mut v = vec![];
        let mut cur = 0i64;
        for (i, c) in self.cls.iter().enumerate() {
            if i > 0 {
                cur += match self.gaps[i] {
                    Gap::One => 1,
                    Gap::Two => 2,
                    Gap::Any => {
                        if self.fin {
                            1
                        } else {
                            2
                        }
                    }
                };
            }
            v.push((*c, cur));
        }
        v
    }
}
