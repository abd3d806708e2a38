use crate::common::*;
use crate::refm;
use crate::sym::*;
use rx509::x509::*;

/// `block`: contents of the [3] field
fn verdict(block: &[u8]) {
    let mut p = Parts::small();
    p.exts = tlv(0xa3, block);
    let b = p.build();
    let (c, r) = match (Certificate::parse(&b), refm::cert(&b, (0, b.len()))) {
        (Ok(c), Some(r)) => (c, r),
        _ => fail("certificate rejected"),
    };
    match compare_exts(&c, &b, &r) {
        None => fail("extensions missing"),
        Some(true) => cover("accepted"),
        Some(false) => cover("rejected"),
    }
}
fn list(l: &[Vec<u8>]) -> Vec<u8> {
    let refs: Vec<&[u8]> = l.iter().map(|x| &x[..]).collect();
    seq(&refs)
}
/// any `arg` octets in place of the block
fn all() {
    verdict(&bytes(arg() as usize));
}
/// any `arg` octets inside the outer sequence
fn inside() {
    verdict(&tlv(0x30, &bytes(arg() as usize)));
}
/// any `arg` octets between two good extensions, before or after them
fn between() {
    let x = bytes(arg() as usize);
    let a = ext(&[0x2a, 3], 1, &[1]);
    let c = ext(&[0x2a, 4], 0, &[2]);
    match choose(0, 2) {
        0 => verdict(&seq(&[&a, &x, &c])),
        1 => verdict(&seq(&[&x, &a, &c])),
        _ => verdict(&seq(&[&a, &c, &x])),
    }
}
fn small() -> Vec<u8> {
    list(&[ext(SKI, 0, &tlv(4, &[1, 2])), ext(BC, 1, &seq(&[&[1, 1, 255]])), ext(&[0x55, 0x1d, 35], 2, &[7])])
}
fn template() -> Vec<u8> {
    match arg() {
        16 | 17 => list(&[ext(&[0x2a, 3], 0, &vec![4; 300]), ext(SKI, 0, &tlv(4, &[7; 130]))]),
        18 => list(&[ext(&[0x2a, 3], 0, &vec![4; 70000])]),
        k if k % 2 == 0 => small(),
        _ => list(&all_exts()),
    }
}
fn cut() {
    let b = template();
    let n = place(b.len() + 1);
    verdict(&b[..n]);
}
/// the list cut off, with the outer length adjusted
fn cut_inside() {
    let b = template();
    let c = match refm::elem(&b, 0, b.len()) {
        Some((e, _)) => e.start,
        None => fail("template broken"),
    };
    let n = place(b.len() + 1);
    assume(n >= c);
    verdict(&tlv(0x30, &b[c..n]));
}
fn flip() {
    let mut b = template();
    corrupt(&mut b);
    verdict(&b);
}
fn flip2() {
    let mut b = template();
    let p = place(b.len() - 1);
    fill(&mut b[p..p + 2]);
    verdict(&b);
}
/// one edit, new elements with `arg` / 2 octets of contents
fn edits() {
    verdict(&edit(&template(), arg() as usize / 2));
}
/// `arg` extensions of any kinds in any order (repeated ones too), the last octet of each
/// identifier arbitrary
fn order() {
    let mut l = vec![];
    for k in 0..arg() {
        let mut id = SKI.to_vec();
        let body = match choose(0, 3) {
            0 => tlv(4, &[k as u8]),
            1 => bits(1, &[0x82]),
            2 => seq(&[&[1, 1, 255]]),
            _ => seq(&[]),
        };
        id[2] = byte();
        l.push(ext(&id, choose(0, 1), &body));
    }
    verdict(&list(&l));
}
/// `arg` extensions, payloads arbitrary
fn many() {
    let mut l = vec![];
    for k in 0..arg() {
        let x = if k < 300 { byte() } else { k as u8 };
        l.push(ext(&[0x2a, k as u8 & 127], k & 1, &[x]));
    }
    verdict(&list(&l));
}
/// stray octets at the end of one extension, of the list, or behind the list
fn stray() {
    let b = template();
    let x = bytes(if arg() < 16 { arg() as usize / 2 } else { 3 });
    let mut t = tree(&b, (0, b.len()));
    let n = containers(&t);
    let mut k = place(n);
    match container(&mut t, &mut k) {
        Some(c) => c.push(Node::Leaf(x)),
        None => fail("template broken"),
    }
    verdict(&flatten(&t));
}
export! {
    h_c20_all => all, h_c20_inside => inside, h_c20_between => between, h_c20_cut => cut, h_c20_cut_inside => cut_inside, h_c20_flip => flip,
    h_c20_flip2 => flip2, h_c20_edits => edits, h_c20_order => order, h_c20_many => many, h_c20_stray => stray,
}
