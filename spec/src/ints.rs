//! N03: the builtin integers as discrete types.
use crate::rt::*;
use normalize_interval::normalize::Finite;

macro_rules! ints {
    ($($h:ident: $t:ident;)*) => { $(
        pub fn $h() {
            let x: $t = any_int();
            check(<$t as Finite>::MINIMUM == $t::MIN, "least value of the type");
            check(<$t as Finite>::MAXIMUM == $t::MAX, "greatest value of the type");
            match Finite::succ(&x) {
                Some(y) => {
                    check(x != $t::MAX, "nothing follows the greatest value");
                    check(int_is(&y, &x, 1), "the successor is one above");
                }
                None => check(x == $t::MAX, "every other value has a successor"),
            }
            match Finite::pred(&x) {
                Some(y) => {
                    check(x != $t::MIN, "nothing precedes the least value");
                    check(int_is(&y, &x, -1), "the predecessor is one below");
                }
                None => check(x == $t::MIN, "every other value has a predecessor"),
            }
            reach("stepping");
        }
    )* };
}
ints! {
    h_N03_u8: u8;
    h_N03_u16: u16;
    h_N03_u32: u32;
    h_N03_u64: u64;
    h_N03_u128: u128;
    h_N03_usize: usize;
    h_N03_i8: i8;
    h_N03_i16: i16;
    h_N03_i32: i32;
    h_N03_i64: i64;
    h_N03_i128: i128;
    h_N03_isize: isize;
}
