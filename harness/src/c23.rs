use crate::common::*;
use crate::sym::*;

const ID: &[u8] = BC;
/// contents of the extension's OCTET STRING
fn verdict(c: &[u8]) {
    if compare_ext(&ext_contents(ID, 0, c)) {
        cover("accepted");
    } else {
        cover("rejected");
    }
}
fn template() -> Vec<u8> {
    seq(&[&[1, 1, 255], &[2, 2, 1, 5]])
}
fn wrap(c: &[u8]) -> Vec<u8> {
    tlv(0x30, c)
}
/// any contents of `arg` octets
fn all() {
    verdict(&bytes(arg() as usize));
}
/// any `arg` octets inside the outer element
fn inside() {
    verdict(&wrap(&bytes(arg() as usize)));
}
/// one arbitrary octet anywhere
fn flip() {
    let mut b = template();
    corrupt(&mut b);
    verdict(&b);
}
/// two arbitrary octets next to each other, anywhere
fn flip2() {
    let mut b = template();
    let p = place(b.len() - 1);
    fill(&mut b[p..p + 2]);
    verdict(&b);
}
/// cut off anywhere, the outer length as it was
fn cut() {
    let b = template();
    let n = place(b.len() + 1);
    verdict(&b[..n]);
}
/// one structural edit
fn edits() {
    verdict(&edit(&template(), arg() as usize));
}
/// anything behind the outer element, or before it
fn around() {
    let x = bytes(arg() as usize);
    if choose(0, 1) == 0 {
        verdict(&cat(&[&template(), &x]));
    } else {
        verdict(&cat(&[&x, &template()]));
    }
}
/// the decoded value is the same whatever the criticality says
fn critical() {
    let c = template();
    check(compare_ext(&ext_contents(ID, choose(0, 2), &c)), "template rejected");
}
/// a path length of `arg` arbitrary octets, with and without the flag
fn path() {
    let i = tlv(2, &bytes(arg() as usize));
    match choose(0, 2) {
        0 => verdict(&seq(&[&i])),
        1 => verdict(&seq(&[&[1, 1, 255], &i])),
        _ => verdict(&seq(&[&[1, 1, 0], &i])),
    }
}
/// up to three elements, each any identifier with the contents of a flag or of a number
fn elements() {
    let mut c = vec![];
    for _ in 0..arg() {
        let id = byte();
        c.extend(tlv(id, &[0xff]));
    }
    verdict(&tlv(0x30, &c));
}
export! { h_c23_all => all, h_c23_inside => inside, h_c23_flip => flip, h_c23_flip2 => flip2, h_c23_cut => cut, h_c23_edits => edits, h_c23_around => around, h_c23_critical => critical, h_c23_path => path, h_c23_elements => elements }
