use crate::common::*;
use crate::sym::*;

const ID: &[u8] = EKU;
/// contents of the extension's OCTET STRING
fn verdict(c: &[u8]) {
    if compare_ext(&ext_contents(ID, 0, c)) {
        cover("accepted");
    } else {
        cover("rejected");
    }
}
fn template() -> Vec<u8> {
    eku_content()
}
fn wrap(c: &[u8]) -> Vec<u8> {
    tlv(0x30, c)
}
/// any contents of `arg` octets
fn all() {
    verdict(&bytes(arg() as usize));
}
/// any `arg` octets inside the outer element
fn inside() {
    verdict(&wrap(&bytes(arg() as usize)));
}
/// one arbitrary octet anywhere
fn flip() {
    let mut b = template();
    corrupt(&mut b);
    verdict(&b);
}
/// two arbitrary octets next to each other, anywhere
fn flip2() {
    let mut b = template();
    let p = place(b.len() - 1);
    fill(&mut b[p..p + 2]);
    verdict(&b);
}
/// cut off anywhere, the outer length as it was
fn cut() {
    let b = template();
    let n = place(b.len() + 1);
    verdict(&b[..n]);
}
/// one structural edit
fn edits() {
    verdict(&edit(&template(), arg() as usize));
}
/// anything behind the outer element, or before it
fn around() {
    let x = bytes(arg() as usize);
    if choose(0, 1) == 0 {
        verdict(&cat(&[&template(), &x]));
    } else {
        verdict(&cat(&[&x, &template()]));
    }
}
/// the decoded value is the same whatever the criticality says
fn critical() {
    let c = template();
    check(compare_ext(&ext_contents(ID, choose(0, 2), &c)), "template rejected");
}
/// `arg` identifiers, each with an arbitrary last octet
fn purposes() {
    let mut c = vec![];
    for _ in 0..arg() {
        c.extend(oid(&cat(&[KP, &[byte()]])));
    }
    verdict(&tlv(0x30, &c));
}
/// one octet of one identifier arbitrary, or an octet more or less
fn near() {
    let mut id = cat(&[KP, &[choose(1, 9) as u8]]);
    match choose(0, 3) {
        0 => {
            corrupt(&mut id);
        }
        1 => id.push(byte()),
        2 => {
            id.pop();
        }
        _ => id.insert(0, byte()),
    }
    let ok = oid(&cat(&[KP, &[3]]));
    match choose(0, 1) {
        0 => verdict(&seq(&[&oid(&id), &ok])),
        _ => verdict(&seq(&[&ok, &oid(&id)])),
    }
}
/// any identifier of `arg` octets
fn ids() {
    verdict(&seq(&[&oid(&bytes(arg() as usize))]));
}
/// the mapping as a function of arbitrary arcs
fn mapping() {
    use rx509::der::ASNObjectIdentifier;
    use rx509::x509::ext::ExtendedKeyUsagePurpose;
    let n = arg() as usize;
    let mut arcs = vec![];
    let mut d = 0u32;
    let want = [1u32, 3, 6, 1, 5, 5, 7, 3];
    for k in 0..n {
        let b = bytes(4);
        let x = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
        if k < 8 {
            d |= x ^ want[k];
        }
        arcs.push(x);
    }
    let last = if n == 9 { arcs[8] } else { 0 };
    let got = ExtendedKeyUsagePurpose::try_from_id(&ASNObjectIdentifier::new(arcs)).map(|p| purpose(&p));
    observe(got.is_some() as u64);
    let known = (n == 9) & (d == 0);
    let w = match last {
        1 => 0,
        2 => 1,
        3 => 2,
        4 => 3,
        8 => 4,
        9 => 5,
        _ => 99,
    };
    match got {
        Some(p) => {
            check(known, "a purpose for another identifier");
            check(p == w, "another purpose");
            cover("purpose");
        }
        None => {
            check(!known | (w == 99), "no purpose for a known identifier");
            cover("none");
        }
    }
}
/// `arg` identifiers, those at certain places arbitrary
fn many() {
    let mut c = vec![];
    let n = arg();
    for k in 0..n {
        let x = if k == 0 || k == 15 || k == 255 || k + 1 == n { byte() } else { [1, 2, 3, 4, 8, 9][k as usize % 6] };
        c.extend(oid(&cat(&[KP, &[x]])));
    }
    verdict(&tlv(0x30, &c));
}
export! { h_c25_many => many, h_c25_all => all, h_c25_inside => inside, h_c25_flip => flip, h_c25_flip2 => flip2, h_c25_cut => cut, h_c25_edits => edits, h_c25_around => around, h_c25_critical => critical, h_c25_purposes => purposes, h_c25_near => near, h_c25_ids => ids, h_c25_mapping => mapping }
