use crate::common::*;
use crate::sym::*;
use rx509::x509::*;

fn verdict(b: &[u8]) {
    if compare_cert(b) {
        match Certificate::parse(b) {
            Ok(c) => match c.tbs_certificate.value.version {
                Version::V1 => cover("version 1"),
                Version::V2 => cover("version 2"),
                Version::V3 => cover("version 3"),
            },
            Err(_) => fail("second parse differs"),
        }
    } else {
        cover("rejected");
    }
}
fn with(version: &[u8]) -> Vec<u8> {
    let mut p = Parts::small();
    p.version = version.to_vec();
    p.build()
}
/// any `arg` octets inside the version wrapper
fn wrapper() {
    verdict(&with(&tlv(0xa0, &bytes(arg() as usize))));
}
/// an integer of `arg` arbitrary octets
fn integer() {
    verdict(&with(&tlv(0xa0, &tlv(2, &bytes(arg() as usize)))));
}
/// any first octet, before an integer of one arbitrary octet
fn first() {
    verdict(&with(&cat(&[&[byte()], &[3, 2, 1], &bytes(1)])));
}
/// no version; followed by an integer of up to `arg` octets
fn absent() {
    let mut p = Parts::small();
    p.version = vec![];
    p.serial = tlv(2, &bytes(arg() as usize));
    verdict(&p.build());
}
/// a second integer, another wrapper, or two version fields
fn surplus() {
    let v = bytes(1);
    match choose(0, 3) {
        0 => verdict(&with(&tlv(0xa0, &cat(&[&tlv(2, &v), &tlv(2, &bytes(1))])))),
        1 => verdict(&with(&tlv(0xa0, &tlv(0xa0, &tlv(2, &v))))),
        2 => verdict(&with(&cat(&[&tlv(0xa0, &tlv(2, &v)), &tlv(0xa0, &tlv(2, &bytes(1)))]))),
        _ => verdict(&with(&tlv(0xa0, &tlv(byte(), &v)))),
    }
}
/// whatever the version, which optional fields are there
fn optional() {
    let mut p = Parts::full();
    p.version = if choose(0, 1) == 0 { vec![] } else { tlv(0xa0, &tlv(2, &bytes(1))) };
    let opt = choose(0, 7);
    if opt & 1 == 0 {
        p.iuid = vec![];
    }
    if opt & 2 == 0 {
        p.suid = vec![];
    }
    if opt & 4 == 0 {
        p.exts = vec![];
    }
    verdict(&p.build());
}
export! { h_c16_wrapper => wrapper, h_c16_integer => integer, h_c16_first => first, h_c16_absent => absent, h_c16_surplus => surplus, h_c16_optional => optional }
