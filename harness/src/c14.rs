use crate::common::*;
use crate::refm;
use crate::sym::*;
use rx509::x509::*;

/// When it parses: the region exposed, and the fields against that region alone.
fn region(b: &[u8]) {
    let got = Certificate::parse(b);
    observe(got.is_ok() as u64);
    let c = match &got {
        Ok(c) => c,
        Err(_) => return cover("rejected"),
    };
    // where the to-be-signed element's contents are, from the two headers alone
    let h = refm::elem(b, 0, b.len()).and_then(|(o, _)| refm::elem(b, o.start, o.start + o.len));
    let e = match &h {
        Some((e, _)) => e,
        None => fail("no to-be-signed element, but accepted"),
    };
    check(
        placed(c.tbs_certificate.bytes, b, e.range()),
        "bytes for signature validation are not the to-be-signed element's contents",
    );
    observe(c.tbs_certificate.bytes.len() as u64);
    // the fields, decoded from that region alone
    let alone = tlv(0x30, &cat(&[&tlv(0x30, c.tbs_certificate.bytes), &seq(&[&oid(&[0x2a, 3])]), &bits(0, &[9])]));
    match (Certificate::parse(&alone), refm::cert(b, (0, b.len()))) {
        (Ok(d), Some(r)) => {
            check_cert(c, b, &r);
            let x = &c.tbs_certificate.value;
            let y = &d.tbs_certificate.value;
            check(x.version == y.version, "version depends on more than the region");
            check(same(x.serial_number.bytes, y.serial_number.bytes), "serial number depends on more than the region");
            check(same(x.issuer.inner, y.issuer.inner), "issuer depends on more than the region");
            check(same(x.subject.inner, y.subject.inner), "subject depends on more than the region");
            check(
                (x.validity.not_before.value == y.validity.not_before.value) & (x.validity.not_after.value == y.validity.not_after.value),
                "validity depends on more than the region",
            );
            check(same_arcs(x.signature.algorithm.values(), y.signature.algorithm.values()), "inner algorithm depends on more than the region");
            cover("accepted");
        }
        (Err(_), _) => fail("the region alone is not accepted"),
        // (whether it should have been accepted at all is another property)
        (_, None) => {}
    }
}
fn base() -> Parts {
    let mut p = Parts::small();
    p.serial = tlv(2, &bytes(2));
    p.issuer = tlv(0x30, &bytes(2));
    p.subject = tlv(0x30, &bytes(2));
    p
}
/// to-be-signed contents of exactly `arg` octets, the padding in one of three fields
fn size() {
    let n = arg() as usize;
    let which = choose(0, 2);
    let mut p = base();
    p.sig_value = bits(0, &bytes(2));
    let mut want = n;
    // find the padding that gives contents of n octets (header lengths jump)
    let mut pad = n.saturating_sub(160);
    loop {
        let mut q = vec![0x55u8; pad];
        if pad >= 2 {
            fill2(&mut q);
        }
        match which {
            0 => p.serial = tlv(2, &cat(&[&[1], &q])),
            1 => p.subject = tlv(0x30, &q),
            _ => p.exts = tlv(0xa3, &q),
        }
        let t = p.tbs();
        let c = match refm::elem(&t, 0, t.len()) {
            Some((e, _)) => e.len,
            None => fail("template broken"),
        };
        if c >= want {
            if c > n {
                want = 0; // no encoding of exactly n octets: the next larger
            }
            break;
        }
        pad += 1;
    }
    region(&p.build());
}
fn fill2(q: &mut [u8]) {
    let n = q.len();
    q[0] = 0xa5;
    q[n - 1] = 0x5a;
}
/// one arbitrary octet anywhere; `arg`: small or full certificate
fn flip() {
    let mut b = template();
    corrupt(&mut b);
    region(&b);
}
fn template() -> Vec<u8> {
    match arg() {
        0 => Parts::small().build(),
        1 => Parts::full().build(),
        _ => {
            let mut p = Parts::small();
            p.version = vec![];
            p.build()
        }
    }
}
/// bytes after or before, cut off
fn around() {
    let b = template();
    match choose(0, 2) {
        0 => region(&cat(&[&b, &bytes(2)])),
        1 => region(&cat(&[&bytes(2), &b])),
        _ => {
            let n = place(b.len());
            region(&b[..n])
        }
    }
}
/// one structural edit anywhere
fn edits() {
    region(&edit(&template(), 1));
}
/// the three headers around and behind the region: arbitrary identifier and length octets
fn headers() {
    let mut b = Parts::small().build();
    let k = 2; // outer header: 30 81 xx or 30 xx
    let outer = if b[1] & 0x80 != 0 { 3 } else { k };
    let p = choose(0, 3) as usize;
    match p {
        0 => fill(&mut b[0..2]),
        1 => fill(&mut b[outer..outer + 2]),
        2 => fill(&mut b[outer - 1..outer + 1]),
        _ => fill(&mut b[outer + 1..outer + 3]),
    }
    region(&b);
}
export! { h_c14_size => size, h_c14_flip => flip, h_c14_around => around, h_c14_edits => edits, h_c14_headers => headers }
