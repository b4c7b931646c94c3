//! Abstract text: known characters, and the printed forms of element values.
//! The printed form of an element is never empty, contains none of the
//! characters of `SPECIAL`, neither starts nor ends with white space and is
//! not a lone minus sign; the forms of different values are different, and the element's parser accepts
//! exactly the printed forms.
use crate::ctx::{Res, Stop};
use crate::interp::*;
use crate::val::*;
use std::rc::Rc;

const SPECIAL: &str = "()[],∞Ø";

#[derive(Clone, Copy, PartialEq, Debug)]
enum U {
    C(char),
    D(u32),
    /// the rest of a printed form after its minus sign
    T(u32),
}
use U::*;
type Us = Vec<U>;

fn special(c: char) -> bool {
    SPECIAL.contains(c)
}
fn units(ps: &[Piece]) -> Us {
    let mut o = vec![];
    for p in ps {
        match p {
            Piece::Lit(s) => o.extend(s.chars().map(C)),
            Piece::Disp(c) => o.push(D(*c)),
            Piece::Tail(c) => o.push(T(*c)),
        }
    }
    o
}
/// With the known minus signs apart.
fn apart(us: &[U], st: &State) -> Us {
    let mut o = vec![];
    for u in us {
        match u {
            D(c) if st.heads.contains(&(*c, true)) => o.extend([C('-'), T(*c)]),
            u => o.push(*u),
        }
    }
    o
}
fn pieces(us: &[U]) -> Vec<Piece> {
    let mut o = vec![];
    let mut cur = String::new();
    for u in us {
        let p = match u {
            C(c) => {
                cur.push(*c);
                continue;
            }
            D(k) => Piece::Disp(*k),
            T(k) if cur.ends_with('-') => {
                cur.pop();
                Piece::Disp(*k)
            }
            T(k) => Piece::Tail(*k),
        };
        if !cur.is_empty() {
            o.push(Piece::Lit(Rc::from(cur.as_str())));
            cur.clear();
        }
        o.push(p);
    }
    if !cur.is_empty() {
        o.push(Piece::Lit(Rc::from(cur.as_str())));
    }
    o
}
fn str_val(us: &[U]) -> Val {
    Val::Str(Rc::new(pieces(us)))
}

#[derive(Clone, Copy, PartialEq)]
enum Tri {
    Yes,
    No,
}
const MAYBE: &str = "text whose form depends on the element type";
fn maybe<T>() -> Res<T> {
    unsup(MAYBE)
}
/// Can `us` begin with `pat`; None: it depends. `plain`: elements whose text
/// does not begin with a minus sign.
fn prefix(us: &[U], pat: &[char], plain: &[u32]) -> Option<Tri> {
    fn can(us: &[U], pat: &[char], plain: &[u32]) -> bool {
        let Some(p) = pat.first() else { return true };
        match us.first() {
            None => false,
            Some(C(c)) => c == p && can(&us[1..], &pat[1..], plain),
            Some(D(k)) if *p == '-' && plain.contains(k) => false,
            Some(u) => {
                let mut k = 0;
                while k < pat.len() && !special(pat[k]) {
                    k += 1;
                    if k == pat.len() || (!(k == 1 && pat[0] == '-' && matches!(u, D(_))) && can(&us[1..], &pat[k..], plain)) {
                        return true;
                    }
                }
                false
            }
        }
    }
    let n = us.iter().zip(pat).take_while(|(u, p)| **u == C(**p)).count();
    if n == pat.len() {
        Some(Tri::Yes)
    } else if can(us, pat, plain) {
        None
    } else {
        Some(Tri::No)
    }
}

/// What a search looks for.
enum Pat {
    Text(Vec<char>),
    Any(Vec<char>),
}
impl Pat {
    fn rev(&self) -> Pat {
        match self {
            Pat::Text(t) => Pat::Text(t.iter().rev().copied().collect()),
            Pat::Any(t) => Pat::Any(t.clone()),
        }
    }
    fn len(&self) -> usize {
        match self {
            Pat::Text(t) => t.len(),
            Pat::Any(_) => 1,
        }
    }
    fn at(&self, us: &[U], plain: &[u32]) -> Res<bool> {
        match self {
            Pat::Text(t) => match prefix(us, t, plain) {
                Some(r) => Ok(r == Tri::Yes),
                None => maybe(),
            },
            Pat::Any(cs) => match us.first() {
                None => Ok(false),
                Some(C(c)) => Ok(cs.contains(c)),
                Some(D(_)) if cs.iter().all(|c| special(*c) || c.is_whitespace()) => Ok(false),
                Some(D(k)) if plain.contains(k) && cs.iter().all(|c| special(*c) || c.is_whitespace() || *c == '-') => Ok(false),
                Some(T(_)) if cs.iter().all(|c| special(*c)) => Ok(false),
                _ => maybe(),
            },
        }
    }
    /// First place where it occurs.
    fn find(&self, us: &[U]) -> Res<Option<usize>> {
        for i in 0..=us.len() {
            if let Some(D(_) | T(_)) = us.get(i) {
                let clear = match self {
                    Pat::Text(t) => t.first().map_or(false, |c| special(*c)),
                    Pat::Any(t) => t.iter().all(|c| special(*c)),
                };
                if !clear {
                    return maybe();
                }
                continue;
            }
            if self.at(&us[i..], &[])? {
                return Ok(Some(i));
            }
        }
        Ok(None)
    }
}
fn chr(v: &Val) -> Res<char> {
    match v {
        Val::Int(c) => char::from_u32(*c as u32).ok_or(Stop::Unsupported("character".into())),
        v => unsup(format!("character {:?}", v)),
    }
}
fn pat(st: &State, v: &Val, e: &Engine) -> Res<Pat> {
    match v {
        Val::Int(_) => Ok(Pat::Text(vec![chr(v)?])),
        Val::Str(ps) => {
            let mut t = vec![];
            for u in units(ps) {
                match u {
                    C(c) => t.push(c),
                    _ => return maybe(),
                }
            }
            Ok(Pat::Text(t))
        }
        Val::Agg(_, f) if !f.is_empty() && f.iter().all(|x| matches!(x, Val::Int(_))) => {
            Ok(Pat::Any(f.iter().map(chr).collect::<Res<Vec<char>>>()?))
        }
        Val::Ref(p) => pat(st, st.resolve(p, &e.prog)?, e),
        Val::Slice(p, a, b) => {
            let mut o = vec![];
            for i in *a..*b {
                o.push(chr(st.resolve(&p.field(i), &e.prog)?)?);
            }
            Ok(Pat::Any(o))
        }
        v => unsup(format!("text pattern {:?}", v)),
    }
}
pub fn str_of(st: &State, v: &Val, e: &Engine) -> Res<Rc<Vec<Piece>>> {
    match v {
        Val::Str(p) => Ok(p.clone()),
        Val::Ref(p) => str_of(st, st.resolve(p, &e.prog)?, e),
        Val::Agg(_, f) if f.len() == 1 => str_of(st, &f[0], e),
        v => unsup(format!("text expected, got {:?}", v)),
    }
}
/// Byte length, in the length of the printed forms inside.
fn weight(us: &[U]) -> (Vec<u32>, i128) {
    let mut k: Vec<u32> = us
        .iter()
        .filter_map(|u| match u {
            D(c) | T(c) => Some(*c),
            _ => None,
        })
        .collect();
    k.sort_unstable();
    let n = us
        .iter()
        .map(|u| match u {
            C(c) => c.len_utf8() as i128,
            D(_) => 0,
            T(_) => -1,
        })
        .sum();
    (k, n)
}
fn length(us: &[U], st: &mut State) -> Val {
    let (k, n) = weight(us);
    if k.is_empty() {
        return Val::Int(n as u128);
    }
    let s = match st.lens.iter().position(|x| x.0 == k) {
        Some(i) => st.lens[i].1,
        None => {
            let s = st.syms.len() as u32;
            st.syms.push((k.len() as i128, 1i128 << 40));
            st.lens.push((k, s));
            s
        }
    };
    Val::Sym(s, n)
}
/// The place in the text at this byte offset.
fn place(us: &[U], at: &Val, st: &mut State) -> Res<usize> {
    for i in 0..=us.len() {
        if length(&us[..i], st) == *at {
            return Ok(i);
        }
    }
    match at {
        Val::Int(n) => {
            // beyond the known start, or inside a character
            let (k, m) = weight(us);
            if k.is_empty() {
                let _ = m;
                return Err(Stop::Violation(format!("panic: text cut at {} which is out of range or inside a character", n)));
            }
            maybe()
        }
        Val::Sym(s, o) => {
            let (k, m) = weight(us);
            if st.lens.iter().any(|x| x.0 == k && x.1 == *s) && *o > m {
                return Err(Stop::Violation("panic: text cut beyond its end".into()));
            }
            // inside the literal text that follows the last printed form
            let last = us.iter().rposition(|u| matches!(u, D(_) | T(_))).map_or(0, |i| i + 1);
            if st.lens.iter().any(|x| x.0 == k && x.1 == *s) && *o > weight(&us[..last]).1 {
                return Err(Stop::Violation("panic: text cut inside a character".into()));
            }
            maybe()
        }
        v => unsup(format!("text cut at {:?}", v)),
    }
}
fn cut(us: &[U], r: &Val, kind: u8, st: &mut State) -> Res<Us> {
    let f = |i: usize| -> Res<Val> {
        match r {
            Val::Agg(_, g) if i < g.len() => Ok(g[i].clone()),
            v => unsup(format!("text range {:?}", v)),
        }
    };
    let (a, b) = match kind {
        0 => {
            let (x, y) = (place(us, &f(0)?, st)?, place(us, &f(1)?, st)?);
            if x > y {
                return Err(Stop::Violation("panic: text range ends before it starts".into()));
            }
            (x, y)
        }
        1 => (place(us, &f(0)?, st)?, us.len()),
        2 => (0, place(us, &f(0)?, st)?),
        3 => (0, us.len()),
        _ => return unsup("text range"),
    };
    Ok(us[a..b].to_vec())
}
fn rev(us: &[U]) -> Us {
    us.iter().rev().copied().collect()
}
fn pair(a: &[U], b: &[U]) -> Val {
    Val::agg(0, vec![str_val(a), str_val(b)])
}
fn ok() -> Val {
    Val::agg(0, vec![Val::unit()])
}

/// The pieces of a `fmt::Arguments` template.
fn template(st: &State, t: &Val, args: &Val, e: &Engine) -> Res<Val> {
    let bytes: Vec<u8> = match st.load(&as_ref(t)?, &e.prog)? {
        Val::Agg(_, f) => f
            .iter()
            .map(|v| match v {
                Val::Int(b) => Ok(*b as u8),
                v => unsup(format!("template byte {:?}", v)),
            })
            .collect::<Res<Vec<u8>>>()?,
        v => return unsup(format!("template {:?}", v)),
    };
    let (p, lo, hi) = st.slice_of(args, &e.prog)?;
    let mut given = vec![];
    for i in lo..hi {
        given.push(st.load(&p.field(i), &e.prog)?);
    }
    let bad = || Stop::Unsupported("format template".into());
    let mut out = vec![];
    let (mut i, mut next) = (0usize, 0usize);
    loop {
        let b = *bytes.get(i).ok_or_else(bad)?;
        i += 1;
        if b == 0 {
            return Ok(Val::Opaque("args", Rc::new(out)));
        }
        if b <= 0x80 {
            let n = if b == 0x80 {
                let n = *bytes.get(i).ok_or_else(bad)? as usize + 256 * *bytes.get(i + 1).ok_or_else(bad)? as usize;
                i += 2;
                n
            } else {
                b as usize
            };
            let s = std::str::from_utf8(bytes.get(i..i + n).ok_or_else(bad)?).map_err(|_| bad())?;
            i += n;
            out.push(Val::Str(Rc::new(vec![Piece::Lit(Rc::from(s))])));
            continue;
        }
        match b {
            0xC0 => {}
            0xC8 => {
                next = *bytes.get(i).ok_or_else(bad)? as usize + 256 * *bytes.get(i + 1).ok_or_else(bad)? as usize;
                i += 2;
            }
            _ => return unsup("format options"),
        }
        out.push(given.get(next).ok_or_else(bad)?.clone());
        next += 1;
    }
}
fn as_ref(v: &Val) -> Res<Ptr> {
    match v {
        Val::Ref(p) => Ok(p.clone()),
        v => unsup(format!("reference expected, got {:?}", v)),
    }
}
fn args_of(st: &State, v: &Val, e: &Engine) -> Res<Rc<Vec<Val>>> {
    match v {
        Val::Opaque("args", f) => Ok(f.clone()),
        Val::Ref(p) => args_of(st, st.resolve(p, &e.prog)?, e),
        v => unsup(format!("format arguments expected, got {:?}", v)),
    }
}
/// The cell a formatter or a growing string lives in.
fn sink(st: &State, v: &Val, e: &Engine) -> Res<Ptr> {
    let mut p = as_ref(v)?;
    loop {
        match st.resolve(&p, &e.prog)? {
            Val::Str(_) => return Ok(p),
            Val::Ref(q) => p = q.clone(),
            Val::Agg(_, f) if f.len() == 1 => p = p.field(0),
            v => return unsup(format!("no text in {:?}", v)),
        }
    }
}
fn push(st: &mut State, v: &Val, more: &[U], e: &Engine) -> Res<()> {
    let p = sink(st, v, e)?;
    let mut us = units(&*str_of(st, &Val::Ref(p.clone()), e)?);
    us.extend_from_slice(more);
    st.store(&p, str_val(&us))
}

pub fn exec(n: &str, st: &mut State, a: Vec<Val>, e: &mut Engine) -> Res<Val> {
    // the formatter and its arguments
    match n {
        "fmt_new" => {
            let p = st.alloc(Val::agg(0, vec![Val::Str(Rc::new(vec![]))]));
            return Ok(Val::Ref(p));
        }
        "fmt_text" => return Ok(Val::Str(str_of(st, &a[0], e)?)),
        "fmt_tok" => {
            let c = match st.load(&as_ref(&a[1])?, &e.prog)? {
                Val::Tok(c) => c,
                v => return unsup(format!("printed element {:?}", v)),
            };
            push(st, &a[0], &[D(c)], e)?;
            return Ok(ok());
        }
        "fmt_pair" => return Ok(Val::Opaque("arg", Rc::new(a))),
        "fmt_parts" => return Ok(Val::Int(args_of(st, &a[0], e)?.len() as u128)),
        "fmt_lit" | "fmt_arg" => {
            let Val::Int(i) = a[1] else { return unsup("part") };
            let v = args_of(st, &a[0], e)?[i as usize].clone();
            return match (n, v) {
                ("fmt_lit", Val::Str(s)) => Ok(Val::some(Val::Str(s))),
                ("fmt_lit", _) => Ok(Val::none()),
                (_, Val::Opaque("arg", f)) => Ok(Val::agg(0, (*f).clone())),
                (_, v) => unsup(format!("format argument {:?}", v)),
            };
        }
        "args_new" => return template(st, &a[0], &a[1], e),
        "args_str" => return Ok(Val::Opaque("args", Rc::new(vec![Val::Str(str_of(st, &a[0], e)?)]))),
        "tok_parse" => {
            let us = units(&*str_of(st, &a[0], e)?);
            return match us[..] {
                [D(c)] => Ok(Val::some(Val::Tok(c))),
                _ if us.is_empty() || us.iter().any(|u| matches!(u, C(c) if special(*c) || c.is_whitespace())) => Ok(Val::none()),
                _ => maybe(),
            };
        }
        // part of a text made up by a harness
        "any_text" => {
            let Val::Int(max) = a[0] else { return unsup("any_text") };
            let toks: Vec<u32> = match st.load(&as_ref(&a[1])?, &e.prog)? {
                Val::Agg(_, f) => f.iter().filter_map(|v| if let Val::Tok(c) = v { Some(*c) } else { None }).collect(),
                v => return unsup(format!("elements {:?}", v)),
            };
            let words = ["(", "[", ",", ")", "]", "∞", "-∞", "Ø", " "];
            let mut us: Us = vec![];
            for _ in 0..max {
                let k = e.cx.choose(1 + words.len() + toks.len())?;
                if k == 0 {
                    break;
                }
                if k <= words.len() {
                    // (the minus sign of "-∞" would join an element before it)
                    if k == 7 && matches!(us.last(), Some(D(_))) {
                        return Err(Stop::Prune);
                    }
                    us.extend(words[k - 1].chars().map(C));
                } else {
                    if matches!(us.last(), Some(D(_))) {
                        return Err(Stop::Prune);
                    }
                    us.push(D(toks[k - 1 - words.len()]));
                }
            }
            return Ok(str_val(&us));
        }
        "no" => return Ok(Val::bool(false)),
        "none" => return Ok(Val::none()),
        "write_char" | "push_char" => {
            let c = chr(&a[1])?;
            push(st, &a[0], &[C(c)], e)?;
            return Ok(if n == "push_char" { Val::unit() } else { ok() });
        }
        "write_str" | "push_str" => {
            let us = units(&*str_of(st, &a[1], e)?);
            push(st, &a[0], &us, e)?;
            return Ok(if n == "push_str" { Val::unit() } else { ok() });
        }
        "string_new" => return Ok(Val::Str(Rc::new(vec![]))),
        _ => {}
    }
    loop {
        match look(n, st, &a, e) {
            // does it depend on whether some element's text begins with a minus sign?
            Err(Stop::Unsupported(m)) if m == MAYBE => {
                let mut open: Us = units(&*str_of(st, &a[0], e)?);
                if let Some(Ok(o)) = a.get(1).map(|x| str_of(st, x, e)) {
                    open.extend(units(&o));
                }
                let mut new = false;
                for u in open {
                    if let D(k) = u {
                        if !st.heads.iter().any(|x| x.0 == k) {
                            let yes = e.cx.choose(2)? == 1;
                            st.heads.push((k, yes));
                            new = true;
                        }
                    }
                }
                if !new {
                    return maybe();
                }
            }
            r => return r,
        }
    }
}
fn look(n: &str, st: &mut State, a: &[Val], e: &mut Engine) -> Res<Val> {
    let us = apart(&units(&*str_of(st, &a[0], e)?), st);
    let plain: Vec<u32> = st.heads.iter().filter(|x| !x.1).map(|x| x.0).collect();
    match n {
        "own" => Ok(str_val(&us)),
        "len" => Ok(length(&us, st)),
        "is_empty" => Ok(Val::bool(us.is_empty())),
        "starts_with" => Ok(Val::bool(pat(st, &a[1], e)?.at(&us, &plain)?)),
        "ends_with" => Ok(Val::bool(pat(st, &a[1], e)?.rev().at(&rev(&us), &[])?)),
        "contains" => Ok(Val::bool(pat(st, &a[1], e)?.find(&us)?.is_some())),
        "strip_prefix" => {
            let p = pat(st, &a[1], e)?;
            Ok(Val::opt(if p.at(&us, &plain)? { Some(str_val(&us[p.len()..])) } else { None }))
        }
        "strip_suffix" => {
            let p = pat(st, &a[1], e)?;
            Ok(Val::opt(if p.rev().at(&rev(&us), &[])? { Some(str_val(&us[..us.len() - p.len()])) } else { None }))
        }
        "split_once" => {
            let p = pat(st, &a[1], e)?;
            Ok(Val::opt(p.find(&us)?.map(|i| pair(&us[..i], &us[i + p.len()..]))))
        }
        "rsplit_once" => {
            let p = pat(st, &a[1], e)?;
            Ok(Val::opt(p.rev().find(&rev(&us))?.map(|j| {
                let i = us.len() - j;
                pair(&us[..i - p.len()], &us[i..])
            })))
        }
        "find" => {
            let p = pat(st, &a[1], e)?;
            Ok(match p.find(&us)? {
                Some(i) => Val::some(length(&us[..i], st)),
                None => Val::none(),
            })
        }
        "rfind" => {
            let p = pat(st, &a[1], e)?;
            Ok(match p.rev().find(&rev(&us))? {
                Some(j) => Val::some(length(&us[..us.len() - j - p.len()], st)),
                None => Val::none(),
            })
        }
        "trim" | "trim_start" | "trim_end" => {
            let white = |u: &U| matches!(u, C(c) if c.is_whitespace());
            let mut r = &us[..];
            if n != "trim_end" {
                while r.first().map_or(false, white) {
                    r = &r[1..];
                }
                if let Some(T(_)) = r.first() {
                    return maybe();
                }
            }
            if n != "trim_start" {
                while r.last().map_or(false, white) {
                    r = &r[..r.len() - 1];
                }
            }
            Ok(str_val(r))
        }
        "trim_matches" | "trim_start_matches" | "trim_end_matches" => {
            let p = pat(st, &a[1], e)?;
            if p.len() == 0 {
                return unsup("empty pattern");
            }
            let mut r = us.clone();
            if n != "trim_end_matches" {
                while p.at(&r, &plain)? {
                    r.drain(..p.len());
                }
            }
            if n != "trim_start_matches" {
                while p.rev().at(&rev(&r), &[])? {
                    r.truncate(r.len() - p.len());
                }
            }
            Ok(str_val(&r))
        }
        "split_at" => {
            let i = place(&us, &a[1], st)?;
            Ok(pair(&us[..i], &us[i..]))
        }
        "eq" | "ne" => {
            let vs = apart(&units(&*str_of(st, &a[1], e)?), st);
            let same = if us == vs {
                true
            } else {
                let lit = |x: &Us| x.iter().map(|u| if let C(c) = u { Some(*c) } else { None }).collect::<Option<Vec<char>>>();
                match (lit(&us), lit(&vs)) {
                    (Some(_), Some(_)) => false,
                    (Some(t), None) | (None, Some(t)) => {
                        let w = if lit(&us).is_some() { &vs } else { &us };
                        match prefix(w, &t, &plain) {
                            Some(Tri::No) => false,
                            _ => return maybe(),
                        }
                    }
                    // the same characters around other elements
                    _ if us.len() == vs.len()
                        && us.iter().zip(&vs).filter(|(x, y)| x != y).count() == 1
                        && us.iter().zip(&vs).all(|(x, y)| x == y || matches!((x, y), (D(_), D(_)))) =>
                    {
                        false
                    }
                    _ => {
                        // compare up to the first difference
                        let k = us.iter().zip(&vs).take_while(|(x, y)| x == y).count();
                        match (us.get(k), vs.get(k)) {
                            (Some(C(_)), Some(C(_))) | (None, _) | (_, None) => false,
                            (Some(D(_)), Some(C(c))) | (Some(C(c)), Some(D(_))) if special(*c) => false,
                            // different elements, both followed by a character no element has
                            (Some(D(_)), Some(D(_))) => {
                                let end = |x: &Us| match x.get(k + 1) {
                                    None => true,
                                    Some(C(c)) => special(*c),
                                    _ => false,
                                };
                                if end(&us) && end(&vs) {
                                    false
                                } else {
                                    return maybe();
                                }
                            }
                            _ => return maybe(),
                        }
                    }
                }
            };
            Ok(Val::bool(same == (n == "eq")))
        }
        _ if n.starts_with("index") => {
            let k = n.as_bytes()[5] - b'0';
            Ok(str_val(&cut(&us, &a[1], k, st)?))
        }
        _ if n.starts_with("get") => {
            let k = n.as_bytes()[3] - b'0';
            match cut(&us, &a[1], k, st) {
                Ok(t) => Ok(Val::some(str_val(&t))),
                Err(Stop::Violation(_)) => Ok(Val::none()),
                Err(x) => Err(x),
            }
        }
        n => unsup(format!("text operation {}", n)),
    }
}

/// Library functions on text.
pub fn classify(d: &str, range: impl Fn() -> Option<u8>) -> Option<&'static str> {
    let last = d.rsplit("::").next().unwrap_or("");
    if d.contains("str::<impl str>::") {
        return Some(match last {
            "len" => "len",
            "is_empty" => "is_empty",
            "starts_with" => "starts_with",
            "ends_with" => "ends_with",
            "contains" => "contains",
            "strip_prefix" => "strip_prefix",
            "strip_suffix" => "strip_suffix",
            "split_once" => "split_once",
            "rsplit_once" => "rsplit_once",
            "find" => "find",
            "rfind" => "rfind",
            "trim" => "trim",
            "trim_start" | "trim_left" => "trim_start",
            "trim_end" | "trim_right" => "trim_end",
            "trim_matches" => "trim_matches",
            "trim_start_matches" | "trim_left_matches" => "trim_start_matches",
            "trim_end_matches" | "trim_right_matches" => "trim_end_matches",
            "split_at" => "split_at",
            "to_owned" | "to_string" | "into_string" => "own",
            "get" => ["get0", "get1", "get2", "get3"][*(0..4u8).collect::<Vec<_>>().get(range()? as usize)? as usize],
            _ => return None,
        });
    }
    if d.contains("for str>::index") || (d.contains("<impl std::ops::Index<I> for ") && d.contains("str::") && last == "index") || d.contains("String as std::ops::Index<I>>::index") {
        return Some(["index0", "index1", "index2", "index3"].get(range()? as usize)?);
    }
    if d.contains("std::cmp::PartialEq for str>::") || d.contains("<str as std::cmp::PartialEq>::") || d.contains("std::string::String as std::cmp::PartialEq") || d.contains("std::cmp::PartialEq<str> for std::string::String") {
        return match last {
            "eq" => Some("eq"),
            "ne" => Some("ne"),
            _ => None,
        };
    }
    if d.contains("fmt::Formatter") || d.contains("std::string::String") || d.contains("fmt::Write") {
        let fmt = d.contains("fmt::");
        match last {
            "write_str" => return Some("write_str"),
            "write_char" => return Some("write_char"),
            "pad" if fmt => return Some("write_str"),
            "alternate" | "sign_plus" | "sign_minus" | "sign_aware_zero_pad" => return Some("no"),
            "width" | "precision" | "align" => return Some("none"),
            "push_str" => return Some("push_str"),
            "push" => return Some("push_char"),
            "new" | "with_capacity" | "default" if d.contains("std::string::String") => return Some("string_new"),
            "len" => return Some("len"),
            "is_empty" => return Some("is_empty"),
            "as_str" | "deref" | "from" | "clone" | "as_ref" | "borrow" if d.contains("std::string::String") => return Some("own"),
            _ => {}
        }
    }
    if d.contains("for str>::to_owned") || d.contains("<str as std::borrow::ToOwned>::to_owned") || d.contains("for str>::to_string") || d.contains("<str as std::string::SpecToString>::spec_to_string") {
        return Some("own");
    }
    if d.contains("std::fmt::Arguments") || d.contains("core::fmt::rt::<impl std::fmt::Arguments") {
        return match last {
            "new" => Some("args_new"),
            "from_str" | "from_str_nonconst" => Some("args_str"),
            _ => None,
        };
    }
    None
}
