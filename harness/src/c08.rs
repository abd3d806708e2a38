use crate::common::*;
use crate::refm::{self, Ev, K};
use crate::sym::*;
use rx509::der::*;

fn back(t: &ASNType, base: &[u8], e: &Ev) {
    if let (ASNType::ObjectIdentifier(x), K::Oid) = (t, e.k) {
        let v = x.value.values();
        check(v.len() >= 2, "fewer than two arcs");
        observe(v.len() as u64);
        for a in v {
            observe(*a as u64);
        }
        // the arcs determine the encoding
        check(same(&refm::oid_encode(v), &base[e.start..e.start + e.len]), "arcs do not denote the encoding");
    }
}
fn verdict(ok: bool) {
    if ok {
        cover("accepted");
    } else {
        cover("rejected");
    }
}
/// all contents of `arg` octets
fn contents() {
    verdict(compare_walk_with(&tlv(6, &bytes(arg() as usize)), back));
}
/// `arg` one-octet sub-identifiers, the last two octets arbitrary
fn many() {
    let n = arg() as usize;
    let mut c = span(n);
    for x in c[..n - 2].iter_mut() {
        *x &= 127;
    }
    verdict(compare_walk_with(&tlv(6, &c), back));
}
/// first sub-identifier of `arg` octets, then a second one
fn first() {
    let n = arg() as usize;
    let mut c = bytes(n);
    for k in 0..n - 1 {
        c[k] |= 128;
    }
    c[n - 1] &= 127;
    c.push(byte() & 127);
    verdict(compare_walk_with(&tlv(6, &c), back));
}
fn nested() {
    let e = tlv(6, &bytes(arg() as usize));
    verdict(compare_walk_with(&seq(&[&[5, 0], &set(&[&e, &oid(&[0x2a])])]), back));
}
export! { h_c08_contents => contents, h_c08_many => many, h_c08_first => first, h_c08_nested => nested }
