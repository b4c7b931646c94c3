//! R10: the notation of raw intervals.
use crate::raw::*;
use crate::rt::*;
use normalize_interval::raw_interval::RawInterval;
use std::fmt::Display;

fn print<V: Display>(v: &V) -> &'static str {
    let f = fmt_new();
    check(v.fmt(f).is_ok(), "printing succeeds");
    fmt_text(f)
}
pub fn h_R10_round_trip() {
    let r: RawInterval<Tok> = any_raw();
    match print(&r).parse::<RawInterval<Tok>>() {
        Ok(s) => check(raw_same(&r, &s), "the printed form reads back as the same interval"),
        Err(_) => check(false, "the printed form is accepted"),
    }
    reach("round trip");
}
/// Whatever is accepted is well formed, and nothing makes the parser panic.
pub fn h_R10_accepted() {
    let of = [any_tok(), any_tok()];
    let s = any_text::<Tok>(5, &of);
    if let Ok(r) = s.parse::<RawInterval<Tok>>() {
        check(raw_wf(&r), "a parsed interval is well formed");
        reach("accepted");
    } else {
        reach("refused");
    }
}
