use crate::common::*;
use crate::refm;
use crate::sym::*;
use rx509::x509::*;

/// octets below 128: one sub-identifier each
fn oid_bytes(n: usize) -> Vec<u8> {
    let b = bytes(n);
    for x in &b {
        assume(*x < 128);
    }
    b
}
fn any_alg(n: usize, params: u64) -> Vec<u8> {
    let o = oid(&oid_bytes(n));
    match params {
        0 => seq(&[&o]),
        1 => seq(&[&o, &[5, 0]]),
        2 => seq(&[&o, &oid(&oid_bytes(2))]),
        3 => seq(&[&o, &tlv(0x30, &bytes(3))]),
        4 => seq(&[&o, &tlv(4, &bytes(2))]),
        5 => seq(&[&o, &tlv(2, &bytes(2))]),
        6 => seq(&[&o, &bits(3, &bytes(1))]),
        7 => seq(&[&o, &tlv(0xa1, &bytes(2))]),
        8 => seq(&[&o, &[1, 1, 255]]),
        9 => seq(&[&o, &tlv(0x31, &bytes(2))]),
        10 => seq(&[&o, &tlv(0x13, b"p")]),
        k => seq(&[&o, &[[4, 0x30, 0x31, 0xa1, 0x13, 0x0c][k as usize - 11], 0]]),
    }
}
fn must(b: &[u8]) {
    let want = refm::cert(b, (0, b.len()));
    check(want.is_some(), "the certificate assembled is not one");
    match (Certificate::parse(b), want) {
        (Ok(c), Some(r)) => {
            observe(1);
            check_cert(&c, b, &r);
            let _ = compare_exts(&c, b, &r);
            // the algorithm identifiers and names print from the same values
            observe(c.tbs_certificate.value.serial_number.bytes.len() as u64);
            observe(c.signature_value.size() as u64);
            cover("parsed");
        }
        (Err(_), _) => fail("well-formed certificate rejected"),
        _ => {}
    }
}
fn base() -> Parts {
    let mut p = Parts::small();
    p.serial = tlv(2, &bytes(4));
    p.issuer = tlv(0x30, &bytes(5));
    p.subject = tlv(0x30, &bytes(4));
    p.spki = seq(&[&any_alg(2, 0), &bits(0, &bytes(4))]);
    p.sig = any_alg(3, 1);
    p.sig_alg = any_alg(2, 0);
    p.sig_value = bits(0, &bytes(3));
    p
}
/// every field's payload arbitrary at once; which optional fields there are
fn fields() {
    let mut p = base();
    let v = choose(0, 3) as u8;
    p.version = if v == 3 { vec![] } else { vec![0xa0, 3, 2, 1, v] };
    let opt = choose(0, 7);
    if opt & 1 != 0 {
        p.iuid = tlv(0x81, &cat(&[&[0], &bytes(2)]));
    }
    if opt & 2 != 0 {
        p.suid = tlv(0x82, &cat(&[&[0], &bytes(3)]));
    }
    if opt & 4 != 0 {
        p.exts = Parts::ext_field(&[ext(&[0x2a, 3], 0, &bytes(4))]);
    }
    must(&p.build());
}
/// the parameters of the three algorithm identifiers, of every kind; `arg` which of the three
fn params() {
    let mut p = base();
    let k = choose(0, 16);
    match arg() {
        0 => p.sig = any_alg(2, k),
        1 => p.sig_alg = any_alg(2, k),
        _ => p.spki = seq(&[&any_alg(2, k), &bits(0, &bytes(4))]),
    }
    must(&p.build());
}
/// numbers of unused bits in the four bit strings; `arg` which of the four
fn unused() {
    let mut p = base();
    let u = choose(0, 7) as u8;
    let n = choose(1, 2) as usize;
    match arg() {
        0 => p.sig_value = bits(u, &bytes(n)),
        1 => {
            let a = any_alg(1, 0);
            p.spki = seq(&[&a, &bits(u, &bytes(n))]);
        }
        2 => p.iuid = tlv(0x81, &cat(&[&[u], &bytes(n)])),
        _ => p.suid = tlv(0x82, &cat(&[&[u], &bytes(n)])),
    }
    must(&p.build());
}
/// long fields: `arg` octets in each of the fields
fn long() {
    let n = arg() as usize;
    let c = span(n);
    let mut p = base();
    match choose(0, 7) {
        0 => p.serial = tlv(2, &c),
        1 => p.issuer = tlv(0x30, &c),
        2 => p.subject = tlv(0x30, &c),
        3 => p.spki = seq(&[&any_alg(1, 0), &bits(0, &c)]),
        4 => p.sig_value = bits(0, &c),
        5 => p.exts = Parts::ext_field(&[ext(&[0x2a, 3], 1, &c)]),
        6 => p.sig = seq(&[&oid(&[0x2b, 0x65, 0x70]), &tlv(4, &c)]),
        _ => p.sig_alg = seq(&[&oid(&[0x2b, 0x65, 0x70]), &tlv(0x30, &c)]),
    }
    must(&p.build());
}
/// object identifiers of `arg` arbitrary octets (when they are well formed) in each place
fn oids() {
    let n = arg() as usize;
    let o = bytes(n);
    let which = choose(0, 2);
    assume(refm::oid(&o).is_some());
    let mut p = base();
    match which {
        0 => p.sig = seq(&[&oid(&o), &[5, 0]]),
        1 => p.sig_alg = seq(&[&oid(&o)]),
        _ => p.spki = seq(&[&seq(&[&oid(&o), &[5, 0]]), &bits(0, &bytes(1))]),
    }
    must(&p.build());
}
/// the three algorithms alike in some ways and different in others, sizes and parameters of their own
fn algorithms() {
    let x = oid_bytes(16);
    let mut alg = || {
        let n = [1, 3, 8, 15][choose(0, 3) as usize];
        let mut o = x[..n].to_vec();
        match choose(0, 2) {
            0 => {}
            1 => o[n - 1] = oid_bytes(1)[0],
            _ => o[0] = oid_bytes(1)[0],
        }
        match choose(0, 2) {
            0 => seq(&[&oid(&o)]),
            1 => seq(&[&oid(&o), &[5, 0]]),
            _ => seq(&[&oid(&o), &tlv(4, &bytes(1))]),
        }
    };
    let mut p = Parts::small();
    p.sig = alg();
    p.sig_alg = alg();
    if arg() == 1 {
        p.spki = seq(&[&alg(), &bits(0, &[7])]);
    }
    must(&p.build());
}
/// all optional fields and extensions of every kind, with arbitrary payloads
fn full() {
    let mut p = Parts::full();
    p.serial = tlv(2, &bytes(5));
    p.iuid = tlv(0x81, &cat(&[&[0], &bytes(2)]));
    p.suid = tlv(0x82, &cat(&[&[0], &bytes(2)]));
    p.sig_value = bits(0, &bytes(8));
    let role = bytes(2);
    assume((role[0] < 128) & (role[1] < 128));
    p.exts = Parts::ext_field(&[
        ext(SKI, 0, &tlv(4, &bytes(4))),
        ext(KU, 1, &bits(7, &cat(&[&bytes(1), &[0x80]]))),
        ext(SAN, 0, &seq(&[&tlv(0x87, &bytes(4)), &tlv(0x82, b"a.b")])),
        ext(BC, 1, &seq(&[&[1, 1, 255], &tlv(2, &bytes(2))])),
        ext(EKU, 2, &eku_content()),
        ext(ROLE, 0, &tlv(0x0c, &role)),
        ext(&[0x55, 0x1d, 35], 0, &bytes(3)),
    ]);
    must(&p.build());
}
/// text of `arg` octets wherever there is text
fn with_texts() {
    let n = arg() as usize;
    let t = if choose(0, 1) == 0 { ascii(n) } else { runes(n) };
    must(&texts(&t));
}
export! { h_c13_fields => fields, h_c13_params => params, h_c13_unused => unused, h_c13_long => long, h_c13_texts => with_texts, h_c13_oids => oids, h_c13_algorithms => algorithms, h_c13_full => full }
