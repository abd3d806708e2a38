use crate::common::*;
use crate::sym::*;

/// contents of the extension's OCTET STRING; arg & 1: key identifier or Modbus role
fn verdict(c: &[u8]) {
    let id = if arg() & 1 == 0 { SKI } else { ROLE };
    if compare_ext(&ext_contents(id, 0, c)) {
        cover("accepted");
    } else {
        cover("rejected");
    }
}
fn template() -> Vec<u8> {
    if arg() & 1 == 0 {
        tlv(4, &[4, 2, 0xfe, 0])
    } else {
        tlv(0x0c, "o\u{e9}\u{20ac}r".as_bytes())
    }
}
fn n() -> usize {
    arg() as usize / 2
}
/// any contents of arg / 2 octets
fn all() {
    verdict(&bytes(n()));
}
/// the right element with any contents
fn inside() {
    let t = template()[0];
    verdict(&tlv(t, &bytes(n())));
}
/// any identifier octet with any contents
fn tag() {
    verdict(&tlv(byte(), &bytes(n())));
}
fn flip() {
    let mut b = template();
    corrupt(&mut b);
    verdict(&b);
}
fn cut() {
    let b = template();
    let k = place(b.len() + 1);
    verdict(&b[..k]);
}
fn edits() {
    verdict(&edit(&template(), n()));
}
/// anything behind or before
fn around() {
    let x = bytes(n());
    if choose(0, 1) == 0 {
        verdict(&cat(&[&template(), &x]));
    } else {
        verdict(&cat(&[&x, &template()]));
    }
}
/// arg / 2 octets, the first and last two arbitrary
fn long() {
    let t = template()[0];
    let mut c = if t == 4 { span(n()) } else { vec![b'x'; n()] };
    let m = c.len();
    if m > 1 {
        fill(&mut c[..2]);
        fill(&mut c[m - 2..]);
    }
    verdict(&tlv(t, &c));
}
/// any octets, or any ASCII
fn plain() {
    let t = template()[0];
    verdict(&tlv(t, &if t == 4 { span(n()) } else { ascii(n()) }));
}
/// longer characters
fn wide() {
    let t = template()[0];
    verdict(&tlv(t, &runes(n())));
}
/// the value wrapped once more
fn twice() {
    let t = template()[0];
    verdict(&tlv(byte(), &tlv(t, &bytes(n()))));
}
export! { h_c26_all => all, h_c26_inside => inside, h_c26_tag => tag, h_c26_flip => flip, h_c26_cut => cut, h_c26_edits => edits, h_c26_around => around, h_c26_long => long, h_c26_ascii => plain, h_c26_runes => wide, h_c26_twice => twice }
