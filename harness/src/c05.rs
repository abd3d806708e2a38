use crate::common::*;
use crate::sym::*;

fn verdict(ok: bool) {
    if ok {
        cover("accepted");
    } else {
        cover("rejected");
    }
}
/// `n` content octets, arbitrary where it may matter
fn contents(n: usize) -> Vec<u8> {
    let mut c = vec![0u8; n];
    if n <= 8 {
        fill(&mut c);
    } else {
        fill(&mut c[..2]);
        fill(&mut c[n - 1..]);
    }
    c
}
fn boolean() {
    let n = arg() as usize;
    verdict(compare_walk(&tlv(1, &contents(n))));
}
fn null() {
    let n = arg() as usize;
    verdict(compare_walk(&tlv(5, &contents(n))));
}
/// inside containers, next to other elements
fn nested() {
    let n = arg() as usize;
    let a = tlv([1, 5][choose(0, 1) as usize], &contents(n));
    verdict(compare_walk(&tlv(0x30, &cat(&[&[2, 1, 1], &tlv(0xa0, &cat(&[&a, &[4, 1, 9]])), &a]))));
}
/// the criticality flag of an extension
fn critical() {
    let n = arg() as usize;
    let c = cat(&[&oid(&[0x2a, 3]), &tlv(1, &contents(n)), &tlv(4, b"abc")]);
    verdict(compare_ext(&c));
}
/// the CA flag
fn ca() {
    let n = arg() as usize;
    let b = tlv(1, &contents(n));
    let s = if choose(0, 1) == 1 { seq(&[&b, &[2, 1, 3]]) } else { seq(&[&b]) };
    verdict(compare_ext(&ext_contents(BC, 0, &s)));
}
/// as algorithm parameters in a certificate
fn params() {
    let n = arg() as usize;
    let mut p = Parts::small();
    let e = tlv([1, 5][choose(0, 1) as usize], &contents(n));
    p.sig_alg = seq(&[&oid(&[0x2a, 3]), &e]);
    verdict(compare_cert(&p.build()));
}
export! { h_c05_boolean => boolean, h_c05_null => null, h_c05_nested => nested, h_c05_critical => critical,
          h_c05_ca => ca, h_c05_params => params }
