use crate::common::*;
use crate::sym::*;

/// every byte string of `arg` bytes
fn all() {
    let b = bytes(arg() as usize);
    verdict(compare_walk(&b));
}
fn verdict(ok: bool) {
    if ok {
        cover("accepted");
    } else {
        cover("rejected");
    }
}
/// nested containers, siblings and leaves, all identifiers fixed, every length octet arbitrary
fn lengths() {
    let shapes: [&[u8]; 6] = [
        &[0x30, 0, 0x30, 0, 4, 0, 9, 9, 4, 0],
        &[0xa1, 0, 0x31, 0, 0x30, 0, 2, 0, 1, 5, 0],
        &[0x30, 0, 4, 0, 1, 4, 0, 2, 0x30, 0, 5, 0],
        &[0x31, 0, 0xbe, 0, 0x80, 0, 6, 0, 0x2a, 3],
        &[0x30, 0, 3, 0, 0, 1, 0x30, 0, 0x30, 0, 5, 0],
        &[0x30, 0, 0x30, 0, 0x30, 0, 0x30, 0, 4, 0, 7],
    ];
    let mut b = shapes[arg() as usize].to_vec();
    for i in 0..b.len() {
        if b[i] == 0 && i % 2 == 1 {
            b[i] = byte();
        }
    }
    verdict(compare_walk(&b));
}
/// containers whose contents need a length of two or three octets, with the last length octets arbitrary
fn long() {
    let n = arg() as usize;
    let inner = tlv(4, &vec![0x55; n]);
    let mut b = cat(&[&tlv(0x30, &tlv(0xa3, &tlv(0x31, &inner))), &[5, 0]]);
    let hit = place(b.len() - n);
    // the headers, and what follows the innermost element
    let hit = if hit >= b.len() - n - 2 { hit + n } else { hit };
    b[hit] = byte();
    verdict(compare_walk(&b));
}
/// a document with every type of element, cut off anywhere, optionally with one arbitrary octet
fn sample() -> Vec<u8> {
    cat(&[
        &seq(&[
            &[1, 1, 255],
            &[2, 2, 1, 0],
            &set(&[&bits(3, &[0xa8]), &[5, 0]]),
            &tlv(0xa2, &cat(&[&oid(&[0x2a, 0x86, 0x48]), &tlv(0x0c, b"\xc3\xa9")])),
            &tlv(0x30, &[]),
        ]),
        &tlv(0x13, b"P"),
        &tlv(0x85, &tlv(0x16, b"I")),
        &tlv(0x17, b"490131235959Z"),
        &tlv(0x18, b"20000229000000Z"),
        &[4, 0],
    ])
}
fn cut() {
    let b = sample();
    let n = place(b.len() + 1);
    verdict(compare_walk(&b[..n]));
}
fn flip() {
    let mut b = sample();
    corrupt(&mut b);
    verdict(compare_walk(&b));
}
/// `arg` elements next to each other
fn many() {
    verdict(compare_walk(&crowd(arg() as usize)));
}
/// `arg` containers within each other
fn deep() {
    verdict(compare_walk(&within(arg() as usize)));
}
/// `arg % 8` arbitrary octets beside a document of `arg / 8`
fn behind() {
    verdict(compare_walk(&beside(&bulk(arg() as usize / 8), arg() as usize % 8)));
}
/// octets with which no element begins
fn no_element() {
    verdict(compare_walk(&junk(arg() as usize)));
}
/// `arg` arbitrary octets as contents
fn opaque() {
    let c = span(arg() as usize);
    let id = [4, 2][choose(0, 1) as usize];
    let e = tlv(id, &c);
    verdict(compare_walk(&match choose(0, 1) {
        0 => e,
        _ => seq(&[&set(&[&e, &[5, 0]]), &e]),
    }));
}
export! { h_c02_behind => behind, h_c02_all => all, h_c02_lengths => lengths, h_c02_long => long, h_c02_cut => cut, h_c02_flip => flip, h_c02_junk => no_element, h_c02_opaque => opaque, h_c02_many => many, h_c02_deep => deep }
