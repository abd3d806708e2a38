use crate::common::*;
use crate::sym::*;

const ID: &[u8] = SAN;
/// contents of the extension's OCTET STRING
fn verdict(c: &[u8]) {
    if compare_ext(&ext_contents(ID, 0, c)) {
        cover("accepted");
    } else {
        cover("rejected");
    }
}
fn template() -> Vec<u8> {
    san_content()
}
fn wrap(c: &[u8]) -> Vec<u8> {
    tlv(0x30, c)
}
/// any contents of `arg` octets
fn all() {
    verdict(&bytes(arg() as usize));
}
/// any `arg` octets inside the outer element
fn inside() {
    verdict(&wrap(&bytes(arg() as usize)));
}
/// one arbitrary octet anywhere
fn flip() {
    let mut b = template();
    corrupt(&mut b);
    verdict(&b);
}
/// two arbitrary octets next to each other, anywhere
fn flip2() {
    let mut b = template();
    let p = place(b.len() - 1);
    fill(&mut b[p..p + 2]);
    verdict(&b);
}
/// cut off anywhere, the outer length as it was
fn cut() {
    let b = template();
    let n = place(b.len() + 1);
    verdict(&b[..n]);
}
/// one structural edit
fn edits() {
    verdict(&edit(&template(), arg() as usize));
}
/// anything behind the outer element, or before it
fn around() {
    let x = bytes(arg() as usize);
    if choose(0, 1) == 0 {
        verdict(&cat(&[&template(), &x]));
    } else {
        verdict(&cat(&[&x, &template()]));
    }
}
/// the decoded value is the same whatever the criticality says
fn critical() {
    let c = template();
    check(compare_ext(&ext_contents(ID, choose(0, 2), &c)), "template rejected");
}
/// every identifier octet before any contents of `arg` octets, next to a good name
fn tag() {
    let x = tlv(byte(), &bytes(arg() as usize));
    match choose(0, 2) {
        0 => verdict(&seq(&[&x])),
        1 => verdict(&seq(&[&tlv(0x82, b"ok"), &x])),
        _ => verdict(&seq(&[&x, &tlv(0x82, b"ok")])),
    }
}
/// `arg` names, each of any supported kind or one that is not, in any order
fn order() {
    let mut c = vec![];
    for k in 0..arg() {
        c.extend(match choose(0, 5) {
            0 => tlv(0x81, &[0x61 + k as u8]),
            1 => tlv(0x82, &[0x61, 0x61 + k as u8]),
            2 => tlv(0x86, &[0x41 + k as u8]),
            3 => tlv(0x87, &bytes(1)),
            4 => tlv(0x88, &[0x2a, k as u8]),
            _ => tlv(0xa4, &seq(&[])),
        });
    }
    verdict(&tlv(0x30, &c));
}
/// any text of `arg` octets in each kind
fn text() {
    let id = [0x81u8, 0x82, 0x86, 0x87, 0x88][choose(0, 4) as usize];
    verdict(&seq(&[&tlv(id, &bytes(arg() as usize))]));
}
/// values of `arg` octets, first and last arbitrary
fn long() {
    let id = [0x81u8, 0x82, 0x86, 0x87, 0x88][choose(0, 4) as usize];
    let n = arg() as usize;
    let c = if id == 0x87 {
        span(n)
    } else {
        let mut c = vec![b'x'; n];
        fill(&mut c[..1]);
        fill(&mut c[n - 1..]);
        c
    };
    verdict(&seq(&[&tlv(id, &c), &tlv(0x82, b"ok")]));
}
/// `arg` octets of ASCII, or longer characters
fn plain() {
    let id = [0x81u8, 0x82, 0x86, 0x87][choose(0, 3) as usize];
    verdict(&seq(&[&tlv(id, &ascii(arg() as usize)), &tlv(0x82, b"ok")]));
}
fn wide() {
    let id = [0x81u8, 0x82, 0x86, 0x87][choose(0, 3) as usize];
    verdict(&seq(&[&tlv(id, &runes(arg() as usize))]));
}
/// `arg` names
fn many() {
    let mut c = vec![];
    for k in 0..arg() {
        let x = if k < 300 { byte() } else { k as u8 };
        c.extend(tlv([0x87, 0x87, 0x81, 0x88][k as usize / 300 % 4], &[k as u8 & 127, x & 127]));
    }
    verdict(&tlv(0x30, &c));
}
export! { h_c24_all => all, h_c24_inside => inside, h_c24_flip => flip, h_c24_flip2 => flip2, h_c24_cut => cut, h_c24_edits => edits, h_c24_around => around, h_c24_critical => critical, h_c24_tag => tag, h_c24_order => order, h_c24_text => text, h_c24_long => long, h_c24_ascii => plain, h_c24_runes => wide, h_c24_many => many }
