//! E03: what deserialization gives. Only built with the `serde` feature on.
use crate::interval::{raw_norm, raw_of, Int};
use crate::raw::*;
use crate::rt::*;
use crate::selection::{tree_of, Sel};
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine::Tine;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::Bound::{self, *};
use crate::tree::{any_tine, tine_same};
use serde::de::{DeserializeSeed, Deserializer, EnumAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{SerializeSeq, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use serde::{Deserialize, Serialize, Serializer};
use std::collections::BTreeSet;

// ---- the input: any at all ----------------------------------------------------
pub struct Failed;
impl std::fmt::Debug for Failed {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        panic!("intrinsic")
    }
}
impl std::fmt::Display for Failed {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        panic!("intrinsic")
    }
}
impl std::error::Error for Failed {}
impl serde::de::Error for Failed {
    fn custom<M: std::fmt::Display>(_: M) -> Self {
        Failed
    }
    fn invalid_type(_: serde::de::Unexpected<'_>, _: &dyn serde::de::Expected) -> Self {
        Failed
    }
    fn invalid_value(_: serde::de::Unexpected<'_>, _: &dyn serde::de::Expected) -> Self {
        Failed
    }
    fn invalid_length(_: usize, _: &dyn serde::de::Expected) -> Self {
        Failed
    }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self {
        Failed
    }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self {
        Failed
    }
    fn missing_field(_: &'static str) -> Self {
        Failed
    }
    fn duplicate_field(_: &'static str) -> Self {
        Failed
    }
}
/// Holds anything.
pub struct Input;
macro_rules! unknown {
    ($($n:ident($($a:ident: $t:ty),*))*) => {
        $(fn $n<V: Visitor<'de>>(self, $($a: $t,)* _: V) -> Result<V::Value, Failed> {
            undecided("input read in a way that is not modelled");
            Err(Failed)
        })*
    };
}
impl<'de> Deserializer<'de> for Input {
    type Error = Failed;
    unknown! {
        deserialize_any() deserialize_bool() deserialize_i8() deserialize_i16() deserialize_i32() deserialize_i64()
        deserialize_u8() deserialize_u16() deserialize_u32() deserialize_f32() deserialize_f64()
        deserialize_char() deserialize_str() deserialize_string() deserialize_bytes() deserialize_byte_buf()
        deserialize_unit() deserialize_unit_struct(_n: &'static str)
        deserialize_tuple_struct(_n: &'static str, _l: usize) deserialize_map()
        deserialize_struct(_n: &'static str, _f: &'static [&'static str])
        deserialize_enum(_n: &'static str, _v: &'static [&'static str])
        deserialize_identifier() deserialize_ignored_any()
    }
    /// only elements are read this way
    fn deserialize_u64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Failed> {
        if any_bool() {
            return Err(Failed);
        }
        v.visit_u64(any_tok())
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Failed> {
        match any_below(3) {
            0 => Err(Failed),
            1 => v.visit_none(),
            _ => v.visit_some(Input),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Failed> {
        if any_bool() {
            return Err(Failed);
        }
        v.visit_newtype_struct(Input)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Failed> {
        if any_bool() {
            return Err(Failed);
        }
        v.visit_seq(Items)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Failed> {
        self.deserialize_seq(v)
    }
}
/// Any number of items.
pub struct Items;
impl<'de> SeqAccess<'de> for Items {
    type Error = Failed;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Failed> {
        if any_bool() {
            return Ok(None);
        }
        s.deserialize(Input).map(Some)
    }
}

macro_rules! element {
    ($n:ident) => {
        impl Serialize for $n {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_u64(tok_code(self))
            }
        }
        impl<'de> Deserialize<'de> for $n {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                struct V;
                impl<'de> Visitor<'de> for V {
                    type Value = $n;
                    fn expecting(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                        panic!("intrinsic")
                    }
                    fn visit_u64<E: serde::de::Error>(self, v: u64) -> Result<$n, E> {
                        Ok(tok_coded(&v))
                    }
                }
                d.deserialize_u64(V)
            }
        }
    };
}
element!(Tok);
element!(Fin);
fn read<V, E: serde::de::Error>(f: impl FnOnce() -> V) -> Result<V, E> {
    if any_bool() {
        return Err(E::custom(""));
    }
    Ok(f())
}

// ---- stand-ins for deserialize on the types that admit every value -------------
pub trait Any: Sized {
    fn any() -> Self;
}
impl<T: Ord> Any for RawInterval<T> {
    fn any() -> Self {
        any_loose()
    }
}
impl<T> Any for Bound<T> {
    fn any() -> Self {
        any_bound()
    }
}
impl<T> Any for Tine<T> {
    fn any() -> Self {
        match any_below(3) {
            0 => Tine::Lower(any_bound()),
            1 => Tine::Upper(any_bound()),
            _ => Tine::Point(any_bound()),
        }
    }
}
pub fn deser_raw<T: Ord, D: Deserializer<'static>>(_: D) -> Result<RawInterval<T>, D::Error> {
    read(Any::any)
}
pub fn deser_bound<T, D: Deserializer<'static>>(_: D) -> Result<Bound<T>, D::Error> {
    read(Any::any)
}
pub fn deser_tine<T, D: Deserializer<'static>>(_: D) -> Result<Tine<T>, D::Error> {
    read(Any::any)
}
pub fn deser_vec<T, D: Deserializer<'static>>(_: D) -> Result<Vec<T>, D::Error> {
    read(|| {
        let mut v = Vec::new();
        vec_more(&mut v);
        v
    })
}
/// Up to two elements: enough to show that some set is let through.
pub fn deser_set<T: Ord + Any, D: Deserializer<'static>>(_: D) -> Result<BTreeSet<T>, D::Error> {
    read(|| {
        let mut s = BTreeSet::new();
        for _ in 0..any_below(3) {
            s.insert(T::any());
        }
        s
    })
}
/// The elements of any vector.
pub struct Some_<T>(std::marker::PhantomData<T>);
pub fn vec_items<T: Any, A>(_: Vec<T>) -> Some_<T> {
    Some_(std::marker::PhantomData)
}
pub fn vec_items_next<T: Any, A>(_: &mut Some_<T>) -> Option<T> {
    if any_bool() {
        return None;
    }
    Some(T::any())
}

// ---- E03 ------------------------------------------------------------------------
pub fn h_E03_interval() {
    discrete();
    if let Ok(i) = Int::deserialize(Input) {
        check(raw_norm(raw_of(&i)), "a deserialized interval is in normal form");
        reach("interval");
    }
}
pub fn h_E03_tree() {
    set_witness(&any_tok::<Tok>());
    if let Ok(t) = TineTree::<Tok>::deserialize(Input) {
        set_wf(&t, "a deserialized tree is well formed");
        reach("tree");
    }
}
pub fn h_E03_selection() {
    discrete();
    set_witness(&any_tok::<Fin>());
    if let Ok(s) = Sel::deserialize(Input) {
        set_wf(tree_of(&s), "a deserialized selection is well formed");
        set_canon(tree_of(&s), "a deserialized selection is in canonical form");
        reach("selection");
    }
}

// ---- E04: a format that hands back what it was given ----------------------------
#[derive(Clone, Copy, PartialEq)]
enum Shape {
    Unit,
    Newtype,
    Tuple,
}
enum Node {
    Elem(u64),
    Maybe(Vec<Node>),
    List(Vec<Node>),
    Variant(u32, &'static str, Shape, Vec<Node>),
}
use Node::*;
impl serde::ser::Error for Failed {
    fn custom<M: std::fmt::Display>(_: M) -> Self {
        Failed
    }
}
struct Output;
struct Parts(Option<(u32, &'static str)>, Vec<Node>);
fn one(x: Node) -> Vec<Node> {
    let mut v = Vec::new();
    v.push(x);
    v
}
type Written = Result<Node, Failed>;
fn other() -> Written {
    undecided("output written in a way that is not modelled");
    Err(Failed)
}
macro_rules! refused {
    ($($n:ident($t:ty))*) => {
        $(fn $n(self, _: $t) -> Written {
            other()
        })*
    };
}
impl Serializer for Output {
    type Ok = Node;
    type Error = Failed;
    type SerializeSeq = Parts;
    type SerializeTuple = Parts;
    type SerializeTupleStruct = Parts;
    type SerializeTupleVariant = Parts;
    type SerializeMap = serde::ser::Impossible<Node, Failed>;
    type SerializeStruct = serde::ser::Impossible<Node, Failed>;
    type SerializeStructVariant = serde::ser::Impossible<Node, Failed>;
    refused! {
        serialize_bool(bool) serialize_i8(i8) serialize_i16(i16) serialize_i32(i32) serialize_i64(i64) serialize_u8(u8)
        serialize_u16(u16) serialize_u32(u32) serialize_f32(f32) serialize_f64(f64) serialize_char(char)
        serialize_str(&str) serialize_bytes(&[u8]) serialize_unit_struct(&'static str)
    }
    fn serialize_u64(self, x: u64) -> Written {
        Ok(Elem(x))
    }
    fn serialize_unit(self) -> Written {
        other()
    }
    fn serialize_none(self) -> Written {
        Ok(Maybe(Vec::new()))
    }
    fn serialize_some<T: ?Sized + Serialize>(self, x: &T) -> Written {
        Ok(Maybe(one(x.serialize(Output)?)))
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, n: &'static str) -> Written {
        Ok(Variant(i, n, Shape::Unit, Vec::new()))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, x: &T) -> Written {
        x.serialize(Output)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, n: &'static str, x: &T) -> Written {
        Ok(Variant(i, n, Shape::Newtype, one(x.serialize(Output)?)))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Parts, Failed> {
        Ok(Parts(None, Vec::new()))
    }
    fn serialize_tuple(self, _: usize) -> Result<Parts, Failed> {
        Ok(Parts(None, Vec::new()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Parts, Failed> {
        Ok(Parts(None, Vec::new()))
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<Parts, Failed> {
        Ok(Parts(Some((i, n)), Vec::new()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Failed> {
        other().and(Err(Failed))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Failed> {
        other().and(Err(Failed))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Failed> {
        other().and(Err(Failed))
    }
}
macro_rules! parts {
    ($($t:ident $f:ident)*) => {
        $(impl $t for Parts {
            type Ok = Node;
            type Error = Failed;
            fn $f<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), Failed> {
                self.1.push(x.serialize(Output)?);
                Ok(())
            }
            fn end(self) -> Written {
                Ok(match self.0 {
                    None => List(self.1),
                    Some((i, n)) => Variant(i, n, Shape::Tuple, self.1),
                })
            }
        })*
    };
}
parts! { SerializeSeq serialize_element SerializeTuple serialize_element SerializeTupleStruct serialize_field SerializeTupleVariant serialize_field }

struct Replay(Node);
macro_rules! mismatch {
    ($($n:ident($($a:ident: $t:ty),*))*) => {
        $(fn $n<V: Visitor<'de>>(self, $($a: $t,)* _: V) -> Result<V::Value, Failed> {
            Err(Failed)
        })*
    };
}
impl<'de> Deserializer<'de> for Replay {
    type Error = Failed;
    mismatch! {
        deserialize_bool() deserialize_i8() deserialize_i16() deserialize_i32() deserialize_i64()
        deserialize_u8() deserialize_u16() deserialize_u32() deserialize_f32() deserialize_f64()
        deserialize_char() deserialize_str() deserialize_string() deserialize_bytes() deserialize_byte_buf()
        deserialize_unit() deserialize_unit_struct(_n: &'static str) deserialize_map()
        deserialize_struct(_n: &'static str, _f: &'static [&'static str])
        deserialize_identifier() deserialize_ignored_any()
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Failed> {
        match self.0 {
            Elem(x) => v.visit_u64(x),
            Maybe(mut x) => match x.pop() {
                None => v.visit_none(),
                Some(x) => v.visit_some(Replay(x)),
            },
            List(x) => v.visit_seq(Rest(x.into_iter())),
            Variant(..) => v.visit_enum(self),
        }
    }
    fn deserialize_u64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Failed> {
        self.deserialize_any(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Failed> {
        self.deserialize_any(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Failed> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Failed> {
        self.deserialize_any(v)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Failed> {
        self.deserialize_any(v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, Failed> {
        self.deserialize_any(v)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Failed> {
        self.deserialize_any(v)
    }
}
struct Rest(std::vec::IntoIter<Node>);
impl<'de> SeqAccess<'de> for Rest {
    type Error = Failed;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Failed> {
        match self.0.next() {
            None => Ok(None),
            Some(x) => Ok(Some(s.deserialize(Replay(x))?)),
        }
    }
}
/// Formats tell variants by name or by number.
struct Which(u32, &'static str);
impl<'de> Deserializer<'de> for Which {
    type Error = Failed;
    mismatch! {
        deserialize_bool() deserialize_i8() deserialize_i16() deserialize_i32() deserialize_i64()
        deserialize_u8() deserialize_u16() deserialize_u32() deserialize_u64() deserialize_f32() deserialize_f64()
        deserialize_char() deserialize_str() deserialize_string() deserialize_bytes() deserialize_byte_buf()
        deserialize_unit() deserialize_unit_struct(_n: &'static str) deserialize_map()
        deserialize_struct(_n: &'static str, _f: &'static [&'static str])
        deserialize_any() deserialize_ignored_any() deserialize_option() deserialize_newtype_struct(_n: &'static str)
        deserialize_seq() deserialize_tuple(_l: usize) deserialize_tuple_struct(_n: &'static str, _l: usize)
        deserialize_enum(_n: &'static str, _v: &'static [&'static str])
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Failed> {
        if any_bool() {
            v.visit_u64(self.0 as u64)
        } else {
            v.visit_str(self.1)
        }
    }
}
impl<'de> EnumAccess<'de> for Replay {
    type Error = Failed;
    type Variant = Replay;
    fn variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<(S::Value, Replay), Failed> {
        let w = match &self.0 {
            Variant(i, n, ..) => Which(*i, n),
            _ => return Err(Failed),
        };
        Ok((s.deserialize(w)?, self))
    }
}
impl Replay {
    fn parts(self, s: Shape) -> Result<Vec<Node>, Failed> {
        match self.0 {
            Variant(_, _, t, x) if s == t => Ok(x),
            _ => Err(Failed),
        }
    }
}
impl<'de> VariantAccess<'de> for Replay {
    type Error = Failed;
    fn unit_variant(self) -> Result<(), Failed> {
        self.parts(Shape::Unit).map(|_| ())
    }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<S::Value, Failed> {
        match self.parts(Shape::Newtype)?.pop() {
            Some(x) => s.deserialize(Replay(x)),
            None => Err(Failed),
        }
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Failed> {
        v.visit_seq(Rest(self.parts(Shape::Tuple)?.into_iter()))
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, Failed> {
        Err(Failed)
    }
}
fn back<V: Serialize + Deserialize<'static>>(x: &V) -> Option<V> {
    let Ok(n) = x.serialize(Output) else {
        check(false, "every value can be serialized");
        return None;
    };
    let r = V::deserialize(Replay(n)).ok();
    check(r.is_some(), "what was serialized can be deserialized");
    r
}
pub fn h_E04_bound() {
    let a: Bound<Tok> = any_bound();
    let Some(b) = back(&a) else { return };
    check(bound_same(&a, &b), "the same bound comes back");
    reach("bound");
}
pub fn h_E04_raw() {
    let a: RawInterval<Tok> = any_loose();
    let Some(b) = back(&a) else { return };
    check(raw_same(&a, &b), "the same interval comes back");
    reach("raw");
}
pub fn h_E04_tine() {
    let a = any_tine();
    let Some(b) = back(&a) else { return };
    check(tine_same(&a, &b), "the same marker comes back");
    reach("tine");
}
pub fn h_E04_interval() {
    discrete();
    let a: Int = crate::interval::any_interval();
    let Some(b) = back(&a) else { return };
    check(raw_same(raw_of(&a), raw_of(&b)), "the same interval comes back");
    reach("interval");
}

/// Expects the markers of a tree, in order.
struct Markers<'a, T>(std::collections::btree_set::Iter<'a, Tine<T>>);
struct NoNode;
fn unlike<V>() -> Result<V, Failed> {
    undecided("a tree is serialized as something else than its markers");
    Err(Failed)
}
macro_rules! unlike {
    ($($n:ident($($t:ty),*) $(-> $r:ty)?;)*) => {
        $(fn $n(self $(, _: $t)*) -> Result<unlike!(@ $($r)?), Failed> {
            unlike()
        })*
    };
    (@) => { NoNode };
    (@ $r:ty) => { $r };
}
type No = serde::ser::Impossible<NoNode, Failed>;
impl<'a, T: Serialize + Deserialize<'static> + Ord> Serializer for Markers<'a, T> {
    type Ok = NoNode;
    type Error = Failed;
    type SerializeSeq = Markers<'a, T>;
    type SerializeTuple = No;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = No;
    type SerializeStruct = No;
    type SerializeStructVariant = No;
    unlike! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64); serialize_u8(u8);
        serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64); serialize_char(char);
        serialize_str(&str); serialize_bytes(&[u8]); serialize_unit_struct(&'static str); serialize_unit(); serialize_none();
        serialize_unit_variant(&'static str, u32, &'static str);
        serialize_tuple(usize) -> No;
        serialize_tuple_struct(&'static str, usize) -> No;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> No;
        serialize_map(Option<usize>) -> No;
        serialize_struct(&'static str, usize) -> No;
        serialize_struct_variant(&'static str, u32, &'static str, usize) -> No;
    }
    fn serialize_some<V: ?Sized + Serialize>(self, _: &V) -> Result<NoNode, Failed> {
        unlike()
    }
    fn serialize_newtype_struct<V: ?Sized + Serialize>(self, _: &'static str, x: &V) -> Result<NoNode, Failed> {
        x.serialize(self)
    }
    fn serialize_newtype_variant<V: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &V) -> Result<NoNode, Failed> {
        unlike()
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self, Failed> {
        Ok(self)
    }
}
fn tine_alike<T: Ord>(a: &Tine<T>, b: &Tine<T>) -> bool {
    match (a, b) {
        (Tine::Lower(x), Tine::Lower(y)) | (Tine::Point(x), Tine::Point(y)) | (Tine::Upper(x), Tine::Upper(y)) => bound_same(x, y),
        _ => false,
    }
}
impl<'a, T: Serialize + Deserialize<'static> + Ord> SerializeSeq for Markers<'a, T> {
    type Ok = NoNode;
    type Error = Failed;
    fn serialize_element<V: ?Sized + Serialize>(&mut self, x: &V) -> Result<(), Failed> {
        let Ok(t) = Tine::<T>::deserialize(Replay(x.serialize(Output)?)) else { return unlike() };
        match self.0.next() {
            Some(u) => check(tine_alike(&t, u), "the markers of a tree are serialized in order"),
            None => check(false, "no more markers are serialized than a tree has"),
        }
        Ok(())
    }
    fn end(mut self) -> Result<NoNode, Failed> {
        check(self.0.next().is_none(), "every marker of a tree is serialized");
        Ok(NoNode)
    }
}
/// Hands back the markers of a tree.
pub struct Stored<T>(BTreeSet<Tine<T>>);
impl<'de, T: Ord + Serialize> Deserializer<'de> for Stored<T> {
    type Error = Failed;
    mismatch! {
        deserialize_bool() deserialize_i8() deserialize_i16() deserialize_i32() deserialize_i64()
        deserialize_u8() deserialize_u16() deserialize_u32() deserialize_u64() deserialize_f32() deserialize_f64()
        deserialize_char() deserialize_str() deserialize_string() deserialize_bytes() deserialize_byte_buf()
        deserialize_unit() deserialize_unit_struct(_n: &'static str) deserialize_map()
        deserialize_struct(_n: &'static str, _f: &'static [&'static str])
        deserialize_enum(_n: &'static str, _f: &'static [&'static str])
        deserialize_identifier() deserialize_ignored_any() deserialize_option() deserialize_tuple(_l: usize)
        deserialize_tuple_struct(_n: &'static str, _l: usize)
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Failed> {
        v.visit_seq(StoredItems(self.0.into_iter()))
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Failed> {
        self.deserialize_any(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Failed> {
        v.visit_newtype_struct(self)
    }
}
pub struct StoredItems<T>(std::collections::btree_set::IntoIter<Tine<T>>);
impl<'de, T: Ord + Serialize> SeqAccess<'de> for StoredItems<T> {
    type Error = Failed;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Failed> {
        match self.0.next() {
            None => Ok(None),
            Some(x) => Ok(Some(s.deserialize(Replay(x.serialize(Output)?))?)),
        }
    }
}
/// The elements of a vector or set being read are not kept: they are read when
/// they are asked for.
pub fn replay_vec<V, D: Deserializer<'static>>(d: D) -> Result<Vec<V>, D::Error> {
    Ok(disguise::<D, Vec<V>>(d))
}
pub fn replay_set<V, D: Deserializer<'static>>(d: D) -> Result<BTreeSet<V>, D::Error> {
    let s: Stored<Tok> = disguise(d);
    Ok(disguise(s.0))
}
pub fn replay_items<V, A>(v: Vec<V>) -> StoredItems<Tok> {
    let s: Stored<Tok> = disguise(v);
    StoredItems(s.0.into_iter())
}
pub fn replay_next<V: Deserialize<'static>, A>(it: &mut StoredItems<Tok>) -> Option<V> {
    match it.0.next() {
        None => None,
        Some(t) => Some(disguise::<Tine<Tok>, V>(t)),
    }
}

fn written<S: Serialize, T: Ord + Clone + Serialize + Deserialize<'static>>(s: &S, m: &BTreeSet<Tine<T>>) -> bool {
    let r = s.serialize(Markers(m.iter()));
    check(r.is_ok(), "every value can be serialized");
    r.is_ok()
}
pub fn h_E04_tree_out() {
    let t: TineTree<Tok> = any_set(false);
    if written(&t, peel::<_, BTreeSet<Tine<Tok>>>(&t)) {
        reach("tree");
    }
}
pub fn h_E04_tree_back() {
    let w = any_tok::<Tok>();
    set_witness(&w);
    let t: TineTree<Tok> = any_set(false);
    let m = set_member(&t, &w);
    let s: &BTreeSet<Tine<Tok>> = peel(&t);
    let r = TineTree::<Tok>::deserialize(Stored(s.clone()));
    let Ok(r) = r else { return check(false, "a tree that was serialized can be deserialized") };
    check(set_member(&r, &w) == m, "the tree that comes back has the same points");
    reach("tree");
}
pub fn h_E04_selection_out() {
    discrete();
    let s = crate::selection::any_sel();
    if written(&s, peel::<_, BTreeSet<Tine<Fin>>>(tree_of(&s))) {
        reach("selection");
    }
}
pub fn h_E04_selection_back() {
    discrete();
    let w = any_tok::<Fin>();
    set_witness(&w);
    let s = crate::selection::any_sel();
    let m = set_member(tree_of(&s), &w);
    let r = Sel::deserialize(Stored(peel::<_, BTreeSet<Tine<Fin>>>(tree_of(&s)).clone()));
    let Ok(r) = r else { return check(false, "a selection that was serialized can be deserialized") };
    check(set_member(tree_of(&r), &w) == m, "the selection that comes back has the same points");
    reach("selection");
}
