//! The marker-set domain: an ordered set of interval boundary markers of
//! unbounded size. Markers at known values are explicit entries (cuts); the
//! stretches between neighbouring cuts are summarised by zones.
use crate::ctx::{Ctx, Res, Stop};
use crate::line::Line;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Key {
    Neg,
    C(u32),
    Pos,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Kind {
    LI,
    LE,
    PI,
    PE,
    UI,
    UE,
    /// Lower(Infinite), only at Key::Neg
    LInf,
    /// Upper(Infinite), only at Key::Pos
    UInf,
}
use Kind::*;

impl Kind {
    /// Membership just below the marker.
    pub fn pre(self) -> bool {
        matches!(self, UI | UE | PE | UInf)
    }
    /// Membership just above the marker.
    pub fn post(self) -> bool {
        matches!(self, LI | LE | PE | LInf)
    }
    /// Membership at the marker's own value.
    pub fn at(self) -> bool {
        matches!(self, LI | PI | UI)
    }
    pub fn excl(self) -> bool {
        matches!(self, LE | PE | UE | LInf | UInf)
    }
}
pub const FINITE: [Kind; 6] = [LI, LE, PI, PE, UI, UE];

/// What lies strictly between two neighbouring cuts.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Zone {
    /// no markers
    Empty,
    /// A properly alternating run of markers starting in membership state `a`
    /// and ending in state `b`; `may` allows it to be empty (then a == b).
    /// `canon`: all exclusive, and every lower→upper pair inside is at least
    /// two steps apart. `l`/`r`: the first (last) marker, when it closes
    /// (opens) a piece, is at least two steps from the left (right) cut.
    Run { may: bool, a: bool, b: bool, canon: bool, l: bool, r: bool },
}

fn run(may: bool, a: bool, b: bool, canon: bool, l: bool, r: bool) -> Zone {
    Zone::Run { may: may && a == b, a, b, canon, l: canon && (l || !a), r: canon && (r || !b) }
}

/// The tag of a named set of which something seen has been forgotten.
pub const LOST: u8 = 100;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Tree {
    pub ents: Vec<(Key, Option<Kind>)>,
    pub zones: Vec<Zone>,
    /// Any well-formed tree with this membership at the witness point,
    /// canonical when the second flag is set, without any value when the third
    /// is; spelled out when looked at.
    pub lazy: Option<(bool, bool, bool)>,
    /// Names the set in its original state; 0 once it may have changed.
    pub tag: u8,
}

thread_local!(static SMALL: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
/// Look only at sets of at most this many markers (0: at all), keeping every
/// one of them apart.
pub fn set_small(n: usize) {
    SMALL.with(|s| s.set(n));
}
pub fn small() -> usize {
    SMALL.with(|s| s.get())
}

impl Tree {
    pub fn new() -> Tree {
        Tree { ents: vec![(Key::Neg, None), (Key::Pos, None)], zones: vec![Zone::Empty], lazy: None, tag: 0 }
    }
    /// An arbitrary well-formed tree (canonical when asked).
    pub fn any(canon: bool, cx: &mut Ctx) -> Res<Tree> {
        let lo = cx.choose(2)? == 1;
        let hi = cx.choose(2)? == 1;
        Ok(Tree {
            ents: vec![
                (Key::Neg, if lo { Some(LInf) } else { None }),
                (Key::Pos, if hi { Some(UInf) } else { None }),
            ],
            zones: vec![run(lo == hi, lo, hi, canon, true, true)],
            lazy: None,
            tag: 0,
        })
    }
    /// Spell out every marker, when only small sets are looked at.
    pub fn spell(&mut self, line: &mut Line, cx: &mut Ctx) -> Res<()> {
        if small() == 0 {
            return Ok(());
        }
        let (mut at, mut n) = (None, 0);
        while let Some(i) = self.next_after(at, None, line, cx)? {
            at = Some(self.ents[i].0);
            n += 1;
            if n > small() {
                return Err(Stop::Prune);
            }
        }
        Ok(())
    }
    /// Spell out a lazy tree.
    pub fn force(&mut self, line: &mut Line, cx: &mut Ctx) -> Res<()> {
        if self.tag >= 3 && self.tag != LOST {
            return Err(Stop::Unsupported("contents of a marker set known by name only".into()));
        }
        if let Some((m, canon, _)) = self.lazy.take() {
            let Some(w) = line.wit else { return Err(Stop::Unsupported("no witness".into())) };
            let tag = self.tag;
            *self = Tree::any(canon, cx)?;
            self.tag = tag;
            self.spell(line, cx)?;
            if self.member(w, line, cx)? != m {
                return Err(Stop::Prune);
            }
        }
        Ok(())
    }
    fn find(&self, k: Key, line: &Line) -> Result<usize, usize> {
        let p = line.pos(k);
        for (i, e) in self.ents.iter().enumerate() {
            let q = line.pos(e.0);
            if q == p {
                return Ok(i);
            }
            if q > p {
                return Err(i);
            }
        }
        Err(self.ents.len())
    }
    fn tighten(&mut self, line: &Line) -> Res<()> {
        if !line.fin {
            return Ok(());
        }
        for i in 0..self.zones.len() {
            if self.crowded(i, line) {
                match self.zones[i] {
                    Zone::Run { may: true, .. } => self.zones[i] = Zone::Empty,
                    _ => return Err(Stop::Prune),
                }
            }
        }
        Ok(())
    }
    /// The markers of a zone need more values than there are between its cuts.
    fn crowded(&self, i: usize, line: &Line) -> bool {
        let Zone::Run { a, b, canon, l, r, .. } = self.zones[i] else { return false };
        let Some(room) = line.room(self.ents[i].0, self.ents[i + 1].0) else { return false };
        let need = match (canon, a, b) {
            (false, ..) => 1,
            (true, false, false) => 3,
            (true, true, true) => 1 + l as usize + r as usize,
            (true, false, true) => 1 + r as usize,
            (true, true, false) => 1 + l as usize,
        };
        room < need
    }
    /// Some zone is not in its tightest form.
    pub fn loose(&self, line: &Line) -> bool {
        line.fin && (0..self.zones.len()).any(|i| self.crowded(i, line))
    }
    pub fn settle(&mut self, line: &Line) -> Res<()> {
        self.tighten(line)
    }
    /// Values that surely lie between cuts with markers between them.
    pub fn spread(&self, line: &mut Line) {
        for (i, z) in self.zones.iter().enumerate() {
            if let Zone::Run { may: false, .. } = z {
                line.between(self.ents[i].0, self.ents[i + 1].0);
            }
        }
    }
    /// Make `k` a cut; its entry becomes definite.
    pub fn cut(&mut self, k: Key, line: &mut Line, cx: &mut Ctx) -> Res<usize> {
        self.force(line, cx)?;
        let i = match self.find(k, line) {
            Ok(i) => return Ok(i),
            Err(i) => i - 1,
        };
        let lk = self.ents[i].0;
        let rk = self.ents[i + 1].0;
        let z = self.zones[i];
        if let Zone::Run { may: true, .. } = z {
            if line.no_room(lk, rk) {
                self.zones[i] = Zone::Empty;
            }
        }
        let (may, a, b, canon, l, r) = match self.zones[i] {
            Zone::Empty => {
                self.ents.insert(i + 1, (k, None));
                self.zones.insert(i, Zone::Empty);
                return Ok(i + 1);
            }
            Zone::Run { may, a, b, canon, l, r } => (may, a, b, canon, l, r),
        };
        // (left, entry, right, require2 left, require2 right)
        let mut opts: Vec<(Zone, Option<Kind>, Zone, bool, bool)> = vec![];
        // zones adjacent to a cut in the middle
        let lz = |may, b2, r2| run(may, a, b2, canon, l, r2);
        let rz = |may, a2, l2| run(may, a2, b, canon, l2, r);
        if may {
            opts.push((lz(true, a, false), None, rz(true, b, false), false, false));
            opts.push((lz(false, !a, false), None, rz(false, !a, false), false, false));
        } else if a == b {
            opts.push((lz(false, a, false), None, rz(true, a, false), false, false));
            opts.push((Zone::Empty, None, rz(false, a, false), false, false));
            opts.push((lz(false, !a, false), None, rz(false, !a, false), false, false));
        } else {
            opts.push((lz(true, a, false), None, rz(false, a, false), false, false));
            opts.push((lz(false, b, false), None, rz(true, b, false), false, false));
        }
        for kd in FINITE {
            if canon && !kd.excl() {
                continue;
            }
            let lopts: Vec<(Zone, bool)> = if kd.pre() != a {
                vec![(lz(false, kd.pre(), true), false)]
            } else if canon && a && l {
                vec![(Zone::Empty, true), (lz(false, a, true), false)]
            } else {
                vec![(lz(true, a, true), false)]
            };
            let ropts: Vec<(Zone, bool)> = if kd.post() != b {
                vec![(rz(false, kd.post(), true), false)]
            } else if canon && b && r {
                vec![(Zone::Empty, true), (rz(false, b, true), false)]
            } else {
                vec![(rz(true, b, true), false)]
            };
            for (lo, l2) in &lopts {
                for (ro, r2) in &ropts {
                    opts.push((*lo, Some(kd), *ro, *l2, *r2));
                }
            }
        }
        let c = cx.choose(opts.len())?;
        let (zl, e, zr, l2, r2) = opts[c];
        if l2 {
            line.require2(lk, k)?;
        }
        if r2 {
            line.require2(k, rk)?;
        }
        self.ents.insert(i + 1, (k, e));
        self.zones[i] = zl;
        self.zones.insert(i + 1, zr);
        self.tighten(line)?;
        Ok(i + 1)
    }
    /// First marker strictly after `front` and strictly before `back`.
    pub fn next_after(
        &mut self,
        front: Option<Key>,
        back: Option<Key>,
        line: &mut Line,
        cx: &mut Ctx,
    ) -> Res<Option<usize>> {
        self.force(line, cx)?;
        if let Some(b) = back {
            self.cut(b, line, cx)?;
        }
        let mut i = match front {
            Some(f) => self.cut(f, line, cx)?,
            None => {
                if back == Some(Key::Neg) {
                    return Ok(None);
                }
                if self.ents[0].1.is_some() {
                    return Ok(Some(0));
                }
                0
            }
        };
        if let (Some(f), Some(b)) = (front, back) {
            if !line.lt(f, b) {
                return Ok(None);
            }
        }
        loop {
            if i + 1 >= self.ents.len() {
                return Ok(None);
            }
            let lk = self.ents[i].0;
            let rk = self.ents[i + 1].0;
            if line.no_room(lk, rk) {
                self.tighten(line)?;
            }
            if let Zone::Run { may, a, b, canon, l, r } = self.zones[i] {
                let kinds: Vec<Kind> = FINITE
                    .iter()
                    .copied()
                    .filter(|k| k.pre() == a && (!canon || k.excl()))
                    .collect();
                // the right remainder: when it could be empty and the kind opens
                // towards a right cut known to be far, distinguish the two cases
                let mut opts: Vec<Option<(Kind, Zone, bool)>> = vec![];
                if may {
                    opts.push(None);
                }
                for kd in kinds {
                    if kd.post() != b {
                        opts.push(Some((kd, run(false, kd.post(), b, canon, true, r), false)));
                    } else if canon && b && r {
                        opts.push(Some((kd, Zone::Empty, true)));
                        opts.push(Some((kd, run(false, b, b, canon, true, r), false)));
                    } else {
                        opts.push(Some((kd, run(true, b, b, canon, true, r), false)));
                    }
                }
                match opts[cx.choose(opts.len())?] {
                    None => self.zones[i] = Zone::Empty,
                    Some((kd, zr, req)) => {
                        let c = line.place_between(lk, rk, cx)?;
                        if canon && l && kd.pre() {
                            line.require2(lk, Key::C(c))?;
                        }
                        if req {
                            line.require2(Key::C(c), rk)?;
                        }
                        self.ents.insert(i + 1, (Key::C(c), Some(kd)));
                        self.zones[i] = Zone::Empty;
                        self.zones.insert(i + 1, zr);
                        self.tighten(line)?;
                        return Ok(Some(i + 1));
                    }
                }
            }
            if back == Some(self.ents[i + 1].0) {
                return Ok(None);
            }
            if self.ents[i + 1].1.is_some() {
                return Ok(Some(i + 1));
            }
            i += 1;
        }
    }
    /// Last marker strictly before `back` and strictly after `front`.
    pub fn prev_before(
        &mut self,
        front: Option<Key>,
        back: Option<Key>,
        line: &mut Line,
        cx: &mut Ctx,
    ) -> Res<Option<usize>> {
        self.force(line, cx)?;
        if let Some(f) = front {
            self.cut(f, line, cx)?;
        }
        let mut i = match back {
            Some(b) => self.cut(b, line, cx)?,
            None => {
                let n = self.ents.len() - 1;
                if front == Some(Key::Pos) {
                    return Ok(None);
                }
                if self.ents[n].1.is_some() {
                    return Ok(Some(n));
                }
                n
            }
        };
        if let (Some(f), Some(b)) = (front, back) {
            if !line.lt(f, b) {
                return Ok(None);
            }
        }
        loop {
            if i == 0 {
                return Ok(None);
            }
            let lk = self.ents[i - 1].0;
            let rk = self.ents[i].0;
            if line.no_room(lk, rk) {
                self.tighten(line)?;
            }
            if let Zone::Run { may, a, b, canon, l, r } = self.zones[i - 1] {
                let kinds: Vec<Kind> = FINITE
                    .iter()
                    .copied()
                    .filter(|k| k.post() == b && (!canon || k.excl()))
                    .collect();
                let mut opts: Vec<Option<(Kind, Zone, bool)>> = vec![];
                if may {
                    opts.push(None);
                }
                for kd in kinds {
                    if kd.pre() != a {
                        opts.push(Some((kd, run(false, a, kd.pre(), canon, l, true), false)));
                    } else if canon && a && l {
                        opts.push(Some((kd, Zone::Empty, true)));
                        opts.push(Some((kd, run(false, a, a, canon, l, true), false)));
                    } else {
                        opts.push(Some((kd, run(true, a, a, canon, l, true), false)));
                    }
                }
                match opts[cx.choose(opts.len())?] {
                    None => self.zones[i - 1] = Zone::Empty,
                    Some((kd, zl, req)) => {
                        let c = line.place_between(lk, rk, cx)?;
                        if canon && r && kd.post() {
                            line.require2(Key::C(c), rk)?;
                        }
                        if req {
                            line.require2(lk, Key::C(c))?;
                        }
                        self.ents.insert(i, (Key::C(c), Some(kd)));
                        self.zones[i - 1] = Zone::Empty;
                        self.zones.insert(i - 1, zl);
                        self.tighten(line)?;
                        return Ok(Some(i));
                    }
                }
            }
            if front == Some(self.ents[i - 1].0) {
                return Ok(None);
            }
            if self.ents[i - 1].1.is_some() {
                return Ok(Some(i - 1));
            }
            i -= 1;
        }
    }
    /// Decide whether any marker lies strictly between the two bounds, without
    /// placing one.
    pub fn any_between(
        &mut self,
        front: Option<Key>,
        back: Option<Key>,
        line: &mut Line,
        cx: &mut Ctx,
    ) -> Res<bool> {
        self.force(line, cx)?;
        if let Some(b) = back {
            self.cut(b, line, cx)?;
        }
        let mut i = match front {
            Some(f) => self.cut(f, line, cx)?,
            None => {
                if self.ents[0].1.is_some() {
                    return Ok(back != Some(Key::Neg));
                }
                0
            }
        };
        if let (Some(f), Some(b)) = (front, back) {
            if !line.lt(f, b) {
                return Ok(false);
            }
        }
        self.tighten(line)?;
        // anything definite first
        let mut j = i;
        while j + 1 < self.ents.len() {
            if let Zone::Run { may: false, .. } = self.zones[j] {
                return Ok(true);
            }
            if back == Some(self.ents[j + 1].0) {
                break;
            }
            if self.ents[j + 1].1.is_some() {
                return Ok(true);
            }
            j += 1;
        }
        while i + 1 < self.ents.len() {
            if let Zone::Run { may: true, a, b, canon, l, r } = self.zones[i] {
                if cx.choose(2)? == 0 {
                    self.zones[i] = Zone::Empty;
                } else {
                    self.zones[i] = run(false, a, b, canon, l, r);
                    return Ok(true);
                }
            }
            if back == Some(self.ents[i + 1].0) {
                return Ok(false);
            }
            i += 1;
        }
        Ok(false)
    }
    /// 0, 1, 2 exactly, or 3 for "three or more".
    pub fn len3(&mut self, line: &mut Line, cx: &mut Ctx) -> Res<usize> {
        self.force(line, cx)?;
        // fast path: everything explicit
        if self.zones.iter().all(|z| *z == Zone::Empty) {
            return Ok(self.ents.iter().filter(|e| e.1.is_some()).count());
        }
        let first = match self.next_after(None, None, line, cx)? {
            None => return Ok(0),
            Some(i) => self.ents[i].0,
        };
        if !self.any_between(Some(first), None, line, cx)? {
            return Ok(1);
        }
        let last = match self.prev_before(Some(first), None, line, cx)? {
            None => return Err(Stop::Prune),
            Some(i) => self.ents[i].0,
        };
        Ok(if self.any_between(Some(first), Some(last), line, cx)? { 3 } else { 2 })
    }
    /// Insert (keeping an equal marker already present when `keep`); returns
    /// the marker that was there.
    pub fn put(&mut self, k: Key, kind: Option<Kind>, keep: bool, line: &mut Line, cx: &mut Ctx) -> Res<Option<Kind>> {
        let i = self.cut(k, line, cx)?;
        self.tag = 0;
        let old = self.ents[i].1;
        if !(keep && old.is_some()) {
            self.ents[i].1 = kind;
        }
        Ok(old)
    }
    pub fn split_off(&mut self, k: Key, line: &mut Line, cx: &mut Ctx) -> Res<Tree> {
        self.force(line, cx)?;
        self.tag = 0;
        let i = self.cut(k, line, cx)?;
        if i == 0 {
            return Ok(std::mem::replace(self, Tree::new()));
        }
        let mut right = Tree { ents: vec![(Key::Neg, None)], zones: vec![Zone::Empty], lazy: None, tag: 0 };
        right.ents.extend_from_slice(&self.ents[i..]);
        right.zones.extend_from_slice(&self.zones[i..]);
        debug_assert_eq!(right.ents.len(), right.zones.len() + 1);
        let zl = self.zones[i - 1];
        self.ents.truncate(i);
        self.zones.truncate(i - 1);
        self.zones.push(zl);
        if k == Key::Pos {
            self.ents.push((Key::Pos, None));
        } else {
            self.ents.push((k, None));
            self.ents.push((Key::Pos, None));
            self.zones.push(Zone::Empty);
        }
        Ok(right)
    }
    /// Move everything of `other` into self.
    pub fn append(&mut self, other: &mut Tree, line: &mut Line, cx: &mut Ctx) -> Res<()> {
        self.force(line, cx)?;
        other.force(line, cx)?;
        self.tag = 0;
        let keys: Vec<Key> = self.ents.iter().map(|e| e.0).collect();
        for k in keys {
            other.cut(k, line, cx)?;
        }
        let keys: Vec<Key> = other.ents.iter().map(|e| e.0).collect();
        for k in keys {
            self.cut(k, line, cx)?;
        }
        for i in 0..self.ents.len() {
            if other.ents[i].1.is_some() {
                self.ents[i].1 = other.ents[i].1;
            }
        }
        for i in 0..self.zones.len() {
            match (self.zones[i], other.zones[i]) {
                (_, Zone::Empty) => {}
                (Zone::Empty, z) => self.zones[i] = z,
                _ => return Err(Stop::Unsupported("append of overlapping unknown markers".into())),
            }
        }
        *other = Tree::new();
        Ok(())
    }
    /// Known to hold no value.
    pub fn void(&self) -> bool {
        match self.lazy {
            Some((_, _, v)) => v,
            None => self.ents.iter().all(|e| e.1.is_none()) && self.zones.iter().all(|z| *z == Zone::Empty),
        }
    }
    /// Membership of a value, for a well-formed tree.
    pub fn member(&mut self, c: u32, line: &mut Line, cx: &mut Ctx) -> Res<bool> {
        if let (Some((m, _, _)), true) = (self.lazy, line.wit == Some(c)) {
            return Ok(m);
        }
        let i = self.cut(Key::C(c), line, cx)?;
        if let Some(k) = self.ents[i].1 {
            return Ok(k.at());
        }
        let mut j = i;
        while j > 0 {
            if let Zone::Run { b, .. } = self.zones[j - 1] {
                return Ok(b);
            }
            j -= 1;
            if let Some(k) = self.ents[j].1 {
                return Ok(k.post());
            }
        }
        Ok(false)
    }
    /// Do the two sets have a value in common in every completion?
    pub fn meets(&mut self, o: &mut Tree, line: &mut Line, cx: &mut Ctx) -> Res<bool> {
        let mut seen = vec![];
        while let Some(c) = line.cls.iter().copied().find(|c| !seen.contains(c)) {
            seen.push(c);
            let (m, n) = (self.member(c, line, cx)?, o.member(c, line, cx)?);
            if m && n {
                return Ok(true);
            }
        }
        // the cuts of both are now the same: all classes
        let states = |t: &Tree| -> Vec<bool> {
            let mut s = false;
            let mut r = vec![];
            for (i, (_, e)) in t.ents.iter().enumerate() {
                if let Some(k) = e {
                    s = k.post();
                }
                r.push(s);
                if let Some(Zone::Run { b, .. }) = t.zones.get(i) {
                    s = *b;
                }
            }
            r
        };
        let (sa, sb) = (states(self), states(o));
        if self.zones.len() != o.zones.len() {
            return Err(Stop::Unsupported("cuts differ".into()));
        }
        for i in 0..self.zones.len() {
            let full = |z: &Zone| matches!(z, Zone::Run { may: false, .. });
            let room = full(&self.zones[i])
                || full(&o.zones[i])
                || line.dist2_known(self.ents[i].0, self.ents[i + 1].0) == Some(true);
            // surely a member: just after the left cut, just before the right
            // one, somewhere between
            let know = |z: &Zone, s: bool| -> [bool; 3] {
                match *z {
                    Zone::Empty => [s && room; 3],
                    Zone::Run { may, a, b, l, r, canon } => {
                        let (x, y) = (a && l && (!may || room), b && r && (!may || room));
                        [x, y, x || y || (canon && !may && !a && !b)]
                    }
                }
            };
            let (za, zb) = (self.zones[i], o.zones[i]);
            let (ka, kb) = (know(&za, sa[i]), know(&zb, sb[i]));
            if (ka[0] && kb[0]) || (ka[1] && kb[1]) {
                return Ok(true);
            }
            if (za == Zone::Empty && sa[i] && kb[2]) || (zb == Zone::Empty && sb[i] && ka[2]) {
                return Ok(true);
            }
        }
        Ok(false)
    }
    /// Markers alternate properly from outside to outside.
    pub fn wf(&self) -> Result<(), String> {
        let mut s = false;
        for (i, (k, e)) in self.ents.iter().enumerate() {
            if let Some(kd) = e {
                if kd.pre() != s {
                    return Err(format!("marker {:?} at {:?} follows membership state {}", kd, k, s));
                }
                s = kd.post();
            }
            if i < self.zones.len() {
                if let Zone::Run { a, b, .. } = self.zones[i] {
                    if a != s {
                        return Err(format!("markers after {:?} start in state {} but follow state {}", k, a, s));
                    }
                    s = b;
                }
            }
        }
        if s {
            return Err("last piece has no upper marker".into());
        }
        Ok(())
    }
    /// All markers exclusive and every piece contains a value of the type.
    pub fn canonical(&self, line: &mut Line, cx: &mut Ctx) -> Res<Result<(), String>> {
        if let Some((_, c, _)) = self.lazy {
            return Ok(if c { Ok(()) } else { Err("uncanonical".into()) });
        }
        if let Err(e) = self.wf() {
            return Ok(Err(e));
        }
        for (k, e) in &self.ents {
            if let Some(kd) = e {
                if !kd.excl() {
                    return Ok(Err(format!("inclusive marker {:?} at {:?}", kd, k)));
                }
            }
        }
        for (i, z) in self.zones.iter().enumerate() {
            if let Zone::Run { a, b, canon, l, r, .. } = z {
                if !canon {
                    return Ok(Err(format!("uncanonical markers after {:?}", self.ents[i].0)));
                }
                if self.ents[i].1.is_some() && *a && !l {
                    return Ok(Err(format!("possibly empty piece after {:?}", self.ents[i].0)));
                }
                if self.ents[i + 1].1.is_some() && *b && !r {
                    return Ok(Err(format!("possibly empty piece before {:?}", self.ents[i + 1].0)));
                }
            }
        }
        let mut last: Option<Key> = None;
        for i in 0..self.ents.len() {
            if let (k, Some(kd)) = self.ents[i] {
                if kd.pre() {
                    if let Some(p) = last {
                        if !line.dist2(p, k, cx)? {
                            return Ok(Err(format!("piece between {:?} and {:?} contains no value", p, k)));
                        }
                    }
                }
                last = if kd.post() { Some(k) } else { None };
            }
            if i < self.zones.len() && self.zones[i] != Zone::Empty {
                last = None;
            }
        }
        Ok(Ok(()))
    }
    /// Fold cut `i` into its neighbouring zones; false when not possible.
    fn fold(&mut self, i: usize, line: &Line) -> bool {
        let zl = self.zones[i - 1];
        let zr = self.zones[i];
        let lk = self.ents[i - 1].0;
        let k = self.ents[i].0;
        let rk = self.ents[i + 1].0;
        let new = match self.ents[i].1 {
            None => match (zl, zr) {
                (Zone::Empty, Zone::Empty) => Zone::Empty,
                (Zone::Empty, Zone::Run { may, a, b, canon, r, .. }) => run(may, a, b, canon, true, r),
                (Zone::Run { may, a, b, canon, l, .. }, Zone::Empty) => run(may, a, b, canon, l, true),
                (
                    Zone::Run { may: m1, a, b: b1, canon: c1, l, .. },
                    Zone::Run { may: m2, a: a2, b, canon: c2, r, .. },
                ) => {
                    if b1 != a2 {
                        return false;
                    }
                    run(m1 && m2, a, b, c1 && c2, l, r)
                }
            },
            Some(kd) => {
                let (mut a, mut b) = (kd.pre(), kd.post());
                let mut canon = kd.excl() && line.fin;
                let dl = line.dist2_known(lk, k) == Some(true);
                let dr = line.dist2_known(k, rk) == Some(true);
                let (mut l, mut r) = (dl || !kd.pre(), dr || !kd.post());
                if let Zone::Run { may, a: a1, b: b1, canon: c1, l: l1, r: r1 } = zl {
                    if b1 != kd.pre() {
                        return false;
                    }
                    a = a1;
                    canon = canon && c1 && (r1 || !kd.pre());
                    l = if may { l1 && l } else { l1 };
                }
                if let Zone::Run { may, a: a2, b: b2, canon: c2, l: l2, r: r2 } = zr {
                    if a2 != kd.post() {
                        return false;
                    }
                    b = b2;
                    canon = canon && c2 && (l2 || !kd.post());
                    r = if may { r2 && r } else { r2 };
                }
                run(false, a, b, canon, l, r)
            }
        };
        self.ents.remove(i);
        self.zones.remove(i);
        self.zones[i - 1] = new;
        true
    }
    /// Drop cuts that carry no information, and fold those at values nothing
    /// else refers to. `live` says which classes must stay; marker-free
    /// stretches keep their live values apart from the folded part.
    pub fn compact(&mut self, live: &dyn Fn(u32) -> bool, line: &Line) {
        let kept = self.kept();
        if !kept && matches!(self.tag, 1 | 2) {
            self.tag = LOST;
        }
        let mut i = 1;
        while !kept && i + 1 < self.ents.len() {
            let c = match self.ents[i].0 {
                Key::C(c) => c,
                _ => unreachable!(),
            };
            if live(c) {
                i += 1;
                continue;
            }
            if self.ents[i].1.is_some() || self.zones[i - 1] != Zone::Empty || self.zones[i] != Zone::Empty {
                // separate the nearest live values on marker-free sides
                if self.zones[i] == Zone::Empty {
                    let (p, q) = (line.pos(self.ents[i].0), line.pos(self.ents[i + 1].0));
                    if let Some(x) = ((p + 1)..q).map(|x| line.cls[x as usize]).find(|x| live(*x)) {
                        self.ents.insert(i + 1, (Key::C(x), None));
                        self.zones.insert(i + 1, Zone::Empty);
                    }
                }
                if self.zones[i - 1] == Zone::Empty {
                    let (p, q) = (line.pos(self.ents[i - 1].0), line.pos(self.ents[i].0));
                    if let Some(x) = ((p + 1)..q).rev().map(|x| line.cls[x as usize]).find(|x| live(*x)) {
                        self.ents.insert(i, (Key::C(x), None));
                        self.zones.insert(i, Zone::Empty);
                        i += 1;
                    }
                }
            }
            if !self.fold(i, line) {
                i += 1;
            }
        }
        let mut i = 1;
        while i + 1 < self.ents.len() {
            if self.ents[i].1.is_none() && self.zones[i - 1] == Zone::Empty && self.zones[i] == Zone::Empty {
                self.ents.remove(i);
                self.zones.remove(i);
            } else {
                i += 1;
            }
        }
    }
    /// What has been seen of one of the two named sets is kept, up to a limit.
    fn kept(&self) -> bool {
        small() > 0 || (matches!(self.tag, 1 | 2) && self.ents.len() <= 10)
    }
    /// Something may be folded (see `compact`).
    pub fn foldable(&self, live: &dyn Fn(u32) -> bool) -> bool {
        let kept = self.kept();
        (1..self.ents.len() - 1).any(|i| {
            (self.ents[i].1.is_none() && self.zones[i - 1] == Zone::Empty && self.zones[i] == Zone::Empty)
                || matches!(self.ents[i].0, Key::C(c) if !kept && !live(c))
        })
    }
    pub fn classes(&self) -> impl Iterator<Item = u32> + '_ {
        self.ents.iter().filter_map(|e| if let Key::C(c) = e.0 { Some(c) } else { None })
    }
}
