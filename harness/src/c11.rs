use crate::common::*;
use crate::sym::*;

fn verdict(ok: bool) {
    if ok {
        cover("accepted");
    } else {
        cover("rejected");
    }
}
/// every byte string of `arg` bytes
fn all() {
    verdict(compare_walk(&bytes(arg() as usize)));
}
/// nested containers of every kind with siblings before, between and after
fn tree() -> Vec<u8> {
    cat(&[
        &tlv(0x30, &cat(&[&tlv(0x31, &tlv(0xa1, &[5, 0])), &[1, 1, 0], &tlv(0x30, &[]), &tlv(0x80, &tlv(0x31, &[]))])),
        &[2, 1, 9],
        &tlv(0x31, &cat(&[&tlv(0x30, &tlv(0x30, &tlv(0xbe, &[4, 1, 1]))), &tlv(0xa0, &[])])),
        &[4, 0],
    ])
}
/// one arbitrary octet anywhere
fn flip() {
    let mut b = tree();
    corrupt(&mut b);
    verdict(compare_walk(&b));
}
/// two arbitrary octets, next to each other
fn flip2() {
    let mut b = tree();
    let p = place(b.len() - 1);
    fill(&mut b[p..p + 2]);
    verdict(compare_walk(&b));
}
/// cut off anywhere
fn cut() {
    let b = tree();
    let n = place(b.len() + 1);
    verdict(compare_walk(&b[..n]));
}
/// `arg` containers, each of an arbitrary kind, each either inside the one before or next to it,
/// with an arbitrary octet string of two octets or a broken element at the innermost place
fn shapes() {
    let n = arg() as usize;
    let mut b: Vec<u8> = match choose(0, 2) {
        0 => cat(&[&[4, 2], &bytes(2)]),
        1 => cat(&[&[4, 2], &bytes(1)]),
        _ => vec![],
    };
    for _ in 0..n {
        let id = byte();
        assume(id == 0x30 || id == 0x31 || (id >= 0xa0 && id <= 0xbe));
        b = match choose(0, 2) {
            0 => tlv(id, &b),
            1 => cat(&[&b, &[id, 0]]),
            _ => cat(&[&[id, 2, 5, 0], &b]),
        };
    }
    verdict(compare_walk(&b));
}
/// `arg` elements next to each other
fn many() {
    verdict(compare_walk(&crowd(arg() as usize)));
}
/// `arg` containers within each other
fn deep() {
    verdict(compare_walk(&within(arg() as usize)));
}
/// `arg % 8` arbitrary octets beside a document of `arg / 8`
fn behind() {
    verdict(compare_walk(&beside(&bulk(arg() as usize / 8), arg() as usize % 8)));
}
export! { h_c11_behind => behind, h_c11_all => all, h_c11_flip => flip, h_c11_flip2 => flip2, h_c11_cut => cut, h_c11_shapes => shapes, h_c11_many => many, h_c11_deep => deep }
