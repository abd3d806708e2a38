use crate::common::*;
use crate::refm::{self, Ev, K};
use crate::sym::*;
use rx509::der::*;

fn value(t: &ASNType, base: &[u8], e: &Ev) {
    if let (ASNType::Integer(x), K::Int) = (t, e.k) {
        number(&x.value, &base[e.start..e.start + e.len]);
    }
}
fn number(x: &ASNInteger, c: &[u8]) {
    match (x.as_i32(), refm::int32(c)) {
        (Some(a), Some(b)) => {
            observe(a as u32 as u64);
            check(a as i64 == b, "number differs from the two's-complement value");
            cover("fits");
        }
        (None, None) => cover("too big"),
        (Some(_), None) => fail("a number for an integer of more than four octets"),
        (None, Some(_)) => fail("no number for an integer of one to four octets"),
    }
}
fn text(x: &ASNInteger, c: &[u8]) {
    let s = show(x);
    observe_bytes(&s);
    match x.as_i32() {
        // `number` compares as_i32 with the value encoded
        Some(v) => check(decimal(&s, v as i64), "text differs from the number"),
        None => check(hex(&s, c), "text differs from the octets in hexadecimal"),
    }
}
/// all contents of `arg` octets
fn contents() {
    let n = arg() as usize;
    let b = tlv(2, &bytes(n));
    let ok = compare_walk_with(&b, value);
    check(ok == (n > 0), "acceptance");
    cover(if ok { "accepted" } else { "rejected" });
}
/// long contents, arbitrary at both ends
fn long() {
    let n = arg() as usize;
    let c = span(n);
    let b = tlv(2, &c);
    check(compare_walk_with(&b, value), "acceptance");
}
/// the text form, all contents of `arg` octets
fn display() {
    let n = arg() as usize;
    let c = bytes(n);
    let x = ASNInteger::new(&c);
    check(placed(x.bytes, &c, (0, n)), "contents differ");
    number(&x, &c);
    text(&x, &c);
    cover("shown");
}
/// the text form of long integers
fn display_long() {
    let n = arg() as usize;
    let c = span(n);
    let x = ASNInteger::new(&c);
    number(&x, &c);
    text(&x, &c);
    cover("shown");
}
/// inside a container, between others
fn nested() {
    let n = arg() as usize;
    let i = tlv(2, &bytes(n));
    let b = seq(&[&i, &tlv(0xa0, &i), &[2, 1, 5]]);
    cover(if compare_walk_with(&b, value) { "accepted" } else { "rejected" });
}
export! { h_c06_contents => contents, h_c06_long => long, h_c06_display => display,
          h_c06_display_long => display_long, h_c06_nested => nested }
