use crate::common::*;
use crate::sym::*;

const ID: &[u8] = KU;
/// contents of the extension's OCTET STRING
fn verdict(c: &[u8]) {
    if compare_ext(&ext_contents(ID, 0, c)) {
        cover("accepted");
    } else {
        cover("rejected");
    }
}
fn template() -> Vec<u8> {
    bits(5, &[0xa5, 0xe0])
}
fn wrap(c: &[u8]) -> Vec<u8> {
    tlv(3, c)
}
/// any contents of `arg` octets
fn all() {
    verdict(&bytes(arg() as usize));
}
/// any `arg` octets inside the outer element
fn inside() {
    verdict(&wrap(&bytes(arg() as usize)));
}
/// one arbitrary octet anywhere
fn flip() {
    let mut b = template();
    corrupt(&mut b);
    verdict(&b);
}
/// two arbitrary octets next to each other, anywhere
fn flip2() {
    let mut b = template();
    let p = place(b.len() - 1);
    fill(&mut b[p..p + 2]);
    verdict(&b);
}
/// cut off anywhere, the outer length as it was
fn cut() {
    let b = template();
    let n = place(b.len() + 1);
    verdict(&b[..n]);
}
/// one structural edit
fn edits() {
    verdict(&edit(&template(), arg() as usize));
}
/// anything behind the outer element, or before it
fn around() {
    let x = bytes(arg() as usize);
    if choose(0, 1) == 0 {
        verdict(&cat(&[&template(), &x]));
    } else {
        verdict(&cat(&[&x, &template()]));
    }
}
/// the decoded value is the same whatever the criticality says
fn critical() {
    let c = template();
    check(compare_ext(&ext_contents(ID, choose(0, 2), &c)), "template rejected");
}
/// every unused count before `arg` arbitrary octets, the nine flags one by one
fn flags() {
    let u = choose(0, 8) as u8;
    verdict(&bits(u, &bytes(arg() as usize)));
}
/// more octets than there are usages
fn long() {
    let mut c = vec![0xffu8; arg() as usize];
    fill(&mut c[..2]);
    let n = c.len();
    fill(&mut c[n - 1..]);
    verdict(&bits(choose(0, 7) as u8, &c));
}
export! { h_c22_all => all, h_c22_inside => inside, h_c22_flip => flip, h_c22_flip2 => flip2, h_c22_cut => cut, h_c22_edits => edits, h_c22_around => around, h_c22_critical => critical, h_c22_flags => flags, h_c22_long => long }
