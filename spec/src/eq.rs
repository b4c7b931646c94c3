//! E02: equality, cloning and hashing.
use crate::interval::{any_interval, ends, raw_of, Int};
use crate::raw::*;
use crate::rt::*;
use crate::selection::Sel;
use crate::tree::{any_tine, tine_same};
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine::Tine;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::Bound;
use std::hash::{Hash, Hasher};

/// Remembers what is written to it.
struct Log([usize; 8], usize);
impl Log {
    fn put(&mut self, x: usize) {
        check(self.1 < 8, "the hash of a value is short");
        self.0[self.1] = x;
        self.1 += 1;
    }
}
impl Hasher for Log {
    fn finish(&self) -> u64 {
        panic!("hash value read while hashing")
    }
    fn write(&mut self, _: &[u8]) {
        panic!("raw bytes hashed")
    }
    fn write_u8(&mut self, i: u8) {
        self.put(i as usize)
    }
    fn write_u32(&mut self, i: u32) {
        self.put(i as usize)
    }
    fn write_u64(&mut self, i: u64) {
        self.put(i as usize)
    }
    fn write_usize(&mut self, i: usize) {
        self.put(i)
    }
    fn write_isize(&mut self, i: isize) {
        self.put(i as usize)
    }
}
impl PartialEq for Log {
    fn eq(&self, o: &Log) -> bool {
        if self.1 != o.1 {
            return false;
        }
        let mut i = 0;
        while i < self.1 {
            if self.0[i] != o.0[i] {
                return false;
            }
            i += 1;
        }
        true
    }
}
fn log<V: Hash>(v: &V) -> Log {
    let mut l = Log([0; 8], 0);
    v.hash(&mut l);
    l
}
fn agree<V: PartialEq + Clone + Hash>(a: &V, b: &V, same: bool) {
    check((a == b) == same, "equal exactly when alike");
    check((a != b) != same, "unequal exactly when not alike");
    if same {
        check(log(a) == log(b), "equal values hash equal");
    }
}

pub fn h_E02_bound() {
    set_witness(&any_tok::<Tok>());
    let (a, b): (Bound<Tok>, _) = (any_bound(), any_bound());
    agree(&a, &b, bound_same(&a, &b));
    check(bound_same(&a.clone(), &a), "a clone is alike");
    let mut c = b;
    c.clone_from(&a);
    check(bound_same(&c, &a), "a clone put in place is alike");
    reach("bound");
}
pub fn h_E02_raw() {
    let a: RawInterval<Tok> = any_loose();
    let b = any_loose();
    set_witness(&any_tok::<Tok>());
    agree(&a, &b, raw_same(&a, &b));
    check(raw_same(&a.clone(), &a), "a clone is alike");
    let mut c = b;
    c.clone_from(&a);
    check(raw_same(&c, &a), "a clone put in place is alike");
    reach("raw");
}
pub fn h_E02_tine() {
    set_witness(&any_tok::<Tok>());
    let (a, b): (Tine<Tok>, _) = (any_tine(), any_tine());
    agree(&a, &b, tine_same(&a, &b));
    check(tine_same(&a.clone(), &a), "a clone is alike");
    let mut c = b;
    c.clone_from(&a);
    check(tine_same(&c, &a), "a clone put in place is alike");
    reach("tine");
}
/// Intervals in normal form hold the same values exactly when their ends agree.
pub fn h_E02_interval() {
    discrete();
    set_witness(&any_tok::<Fin>());
    let (a, b): (Int, Int) = (any_interval(), any_interval());
    agree(&a, &b, ends(raw_of(&a)) == ends(raw_of(&b)));
    check(raw_same(raw_of(&a.clone()), raw_of(&a)), "a clone is alike");
    let mut c = b;
    c.clone_from(&a);
    check(raw_same(raw_of(&c), raw_of(&a)), "a clone put in place is alike");
    reach("interval");
}
fn sets<V: PartialEq + Clone + Hash>(a: V, b: V, c: V) {
    agree(&a, &b, true);
    agree(&a, &c, false);
    check(a.clone() == a, "a clone is alike");
    check(a.clone() != c, "a clone is alike");
}
pub fn h_E02_tree() {
    sets::<TineTree<Tok>>(set_named(0), set_named(0), set_named(1));
    reach("tree");
}
fn named(n: usize) -> Sel {
    wrap(set_named::<TineTree<Fin>>(n))
}
pub fn h_E02_selection() {
    let [a, b, c]: [Sel; 3] = [named(0), named(0), named(1)];
    sets(a, b, c);
    reach("selection");
}
/// Whatever way they are compared, sets found equal agree at every point.
pub fn h_E02_points() {
    let w = any_tok::<Tok>();
    set_witness(&w);
    let (a, b): (TineTree<Tok>, TineTree<Tok>) = (any_set(false), any_set(false));
    let (x, y) = (set_member(&a, &w), set_member(&b, &w));
    if a == b {
        if x != y && lens_taken() {
            undecided("trees compared by size");
        }
        check(x == y, "equal trees have the same points");
        reach("equal");
    }
    reach("compared");
}
/// The empty tree equals no other.
pub fn h_E02_empty() {
    let w = any_tok::<Tok>();
    set_witness(&w);
    let a: TineTree<Tok> = any_set(false);
    let x = set_member(&a, &w);
    let b = TineTree::new();
    if a == b || b == a {
        if x && lens_taken() {
            undecided("trees compared by size");
        }
        check(!x, "a tree with points does not equal the empty one");
    }
    reach("compared");
}
