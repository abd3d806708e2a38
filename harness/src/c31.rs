//! The heap a call holds at any one time is bounded by what it is given, and given back.
use crate::common::*;
use crate::sym::*;
use crate::touch;
use rx509::x509::Name;

const BASE: u64 = 16384;
const EACH: u64 = 192;

fn within(b: &[u8], f: fn(&[u8])) {
    let held = heap();
    heap_limit(BASE + EACH * b.len() as u64);
    f(b);
    heap_limit(0);
    check(heap() == held, "memory is not given back");
    cover("within");
}
fn name(b: &[u8]) {
    touch::name(&Name { inner: b })
}
fn entry() -> fn(&[u8]) {
    [touch::walk::<false> as fn(&[u8]), touch::certificate, touch::one, name][choose(0, 3) as usize]
}
/// every input of `arg` octets
fn all() {
    let f = entry();
    within(&bytes(arg() as usize), f);
}
/// any header octets before two octets, at the top and inside
fn header() {
    let k = arg() as usize;
    let e = cat(&[&bytes(2), &bytes(k), &[5, 0]]);
    match choose(0, 2) {
        0 => within(&e, touch::walk::<false>),
        1 => within(&tlv(0x30, &e), touch::walk::<false>),
        _ => within(&tlv(0xa3, &tlv(0x31, &e)), touch::walk::<false>),
    }
}
/// somewhere a length of one to four arbitrary octets
fn claim() {
    let k = arg() as usize % 4 + 1;
    let (mut b, f): (Vec<u8>, fn(&[u8])) = match arg() / 4 {
        0 => (Parts::small().build(), touch::certificate),
        1 => (Parts::full().build(), touch::certificate),
        2 => (ext_contents(SAN, 0, &san_content()), touch::one),
        3 => (ext_contents(EKU, 0, &eku_content()), touch::one),
        _ => (cat(&[&set(&[&ava(3, 0x0c, b"common")]), &set(&[&ava(5, 0x13, b"other"), &ava(10, 0x16, b"org")])]), name),
    };
    let p = place(b.len() - k);
    b[p] = 0x80 | k as u8;
    fill(&mut b[p + 1..p + 1 + k]);
    within(&b, f);
}
/// one arbitrary octet anywhere
fn flip() {
    let mut b = if arg() == 0 { Parts::small().build() } else { Parts::full().build() };
    corrupt(&mut b);
    within(&b, touch::certificate);
}
/// long inputs: kind `arg % 16`, some `arg / 16` octets, the last octets possibly missing
fn grow() {
    let (b, f) = touch::shape::<false>(arg() as usize % 16, arg() as usize / 16);
    let cut = choose(0, 1) as usize;
    within(&b[..b.len() - cut], f);
}
export! { h_c31_all => all, h_c31_header => header, h_c31_claim => claim, h_c31_flip => flip, h_c31_grow => grow }
