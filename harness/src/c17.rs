use crate::common::*;
use crate::refm;
use crate::sym::*;
use rx509::x509::*;

fn verdict(b: &[u8]) {
    let got = Certificate::parse(b);
    let want = refm::cert(b, (0, b.len()));
    observe(got.is_ok() as u64);
    match (&got, &want) {
        (Ok(c), Some(r)) => {
            check_cert(c, b, r);
            let t = &c.tbs_certificate.value;
            let present = t.issuer_unique_id.is_some() as u64 | (t.subject_unique_id.is_some() as u64) << 1 | (t.extensions.is_some() as u64) << 2;
            observe(present);
            match compare_exts(c, b, r) {
                None => cover("no extensions"),
                Some(true) => cover("extensions"),
                Some(false) => cover("bad extensions"),
            }
            match present & 3 {
                0 => cover("no id"),
                1 => cover("issuer id"),
                2 => cover("subject id"),
                _ => cover("both ids"),
            }
        }
        (Err(_), None) => cover("rejected"),
        (Ok(_), None) => fail("trailing fields that X.509 does not allow accepted"),
        (Err(_), Some(_)) => fail("allowed trailing fields rejected"),
    }
}
fn with(trailing: &[u8]) {
    let mut p = Parts::small();
    p.exts = trailing.to_vec();
    verdict(&p.build());
}
/// `arg` trailing elements, each with an arbitrary identifier octet and one of several contents
fn elements() {
    let mut t = vec![];
    for _ in 0..arg() {
        let id = byte();
        let c = match choose(0, 2) {
            0 => cat(&[&[0], &bytes(1)]),
            1 => seq(&[&ext(&[0x2a, 3], 1, &bytes(1))]),
            _ => vec![],
        };
        t.extend(tlv(id, &c));
    }
    with(&t);
}
/// any subset and order of the three fields (and one more), contents a bit string each
fn order() {
    let mut t = vec![];
    for _ in 0..arg() {
        let k = choose(0, 4) as u8;
        t.extend(match k {
            0 => tlv(0xa3, &seq(&[&ext(SKI, 0, &tlv(4, &bytes(1)))])),
            k => tlv(0x80 + k, &cat(&[&[0], &bytes(2)])),
        });
    }
    with(&t);
}
/// a unique id (`arg` & 1: of the subject) of `arg` / 2 arbitrary octets
fn unique() {
    with(&tlv(0x81 + (arg() & 1) as u8, &bytes(arg() as usize / 2)));
}
/// both ids and the extensions, one of the three with arbitrary contents of `arg` octets
fn contents() {
    let k = choose(0, 2);
    let c = bytes(arg() as usize);
    let a: &[u8] = if k == 0 { &c } else { &[0, 0x33] };
    let b: &[u8] = if k == 1 { &c } else { &[4, 0x70] };
    let d = seq(&[&ext(&[0x2a, 3], 0, &[1])]);
    let d: &[u8] = if k == 2 { &c } else { &d };
    with(&cat(&[&tlv(0x81, a), &tlv(0x82, b), &tlv(0xa3, d)]));
}
/// any `arg` octets in place of the trailing fields
fn raw() {
    with(&bytes(arg() as usize));
}
export! { h_c17_elements => elements, h_c17_order => order, h_c17_unique => unique, h_c17_contents => contents, h_c17_raw => raw }
