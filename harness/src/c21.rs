use crate::common::*;
use crate::sym::*;

fn verdict(b: &[u8]) {
    if compare_ext(b) {
        cover("accepted");
    } else {
        cover("rejected");
    }
}
/// contents that some kind of extension takes
fn body(k: u64) -> Vec<u8> {
    match k {
        0 => tlv(4, &[1, 2]),
        1 => bits(7, &[0x86, 0x80]),
        2 => san_content(),
        3 => seq(&[&[1, 1, 255], &[2, 1, 5]]),
        4 => eku_content(),
        5 => tlv(0x0c, b"op"),
        6 => seq(&[]),
        _ => vec![0x41],
    }
}
/// every last octet of the identifier before contents of every kind
fn last() {
    let mut id = SKI.to_vec();
    id[2] = byte();
    verdict(&ext_contents(&id, choose(0, 2), &body(choose(0, 7))));
}
/// each known identifier with one octet of it arbitrary, before its own kind of contents
fn near() {
    let ids = [SKI, KU, SAN, BC, EKU, ROLE];
    let k = choose(0, 5);
    let mut id = ids[k as usize].to_vec();
    corrupt(&mut id);
    verdict(&ext_contents(&id, 0, &body(k)));
}
/// each known identifier made longer or shorter
fn lengths() {
    let ids = [SKI, KU, SAN, BC, EKU, ROLE];
    let k = choose(0, 5);
    let id = ids[k as usize];
    let id = match choose(0, 3) {
        0 => cat(&[id, &bytes(1)]),
        1 => id[..id.len() - 1].to_vec(),
        2 => cat(&[&bytes(1), id]),
        _ => id[1..].to_vec(),
    };
    verdict(&ext_contents(&id, 1, &body(k)));
}
/// any identifier of `arg` octets
fn ids() {
    verdict(&ext_contents(&bytes(arg() as usize), choose(0, 1), &bytes(1)));
}
/// criticality: any element of `arg` content octets in its place
fn critical() {
    let ids = [SKI, KU, SAN, BC, EKU, ROLE, &[0x2a, 3]];
    let k = choose(0, 6);
    verdict(&cat(&[&oid(ids[k as usize]), &tlv(byte(), &bytes(arg() as usize)), &tlv(4, &body(k))]));
}
/// unknown identifier: any contents of `arg` octets are kept
fn unknown() {
    let n = arg() as usize;
    let c = span(n);
    verdict(&ext_contents(&[0x55, 0x1d, 35], choose(0, 2), &c));
}
/// a known identifier with any contents of `arg` octets
fn known() {
    let ids = [SKI, KU, SAN, BC, EKU, ROLE];
    verdict(&ext_contents(ids[choose(0, 5) as usize], 0, &bytes(arg() as usize)));
}
fn template(k: u64) -> Vec<u8> {
    let ids = [SKI, KU, SAN, BC, EKU, ROLE, &[0x2a, 3]];
    ext_contents(ids[k as usize], 1, &body(k))
}
fn flip() {
    let mut b = template(arg());
    corrupt(&mut b);
    verdict(&b);
}
fn cut() {
    let b = template(choose(0, 6));
    let n = place(b.len() + 1);
    verdict(&b[..n]);
}
fn edits() {
    verdict(&edit(&template(choose(0, 6)), arg() as usize));
}
/// any `arg` octets
fn all() {
    verdict(&bytes(arg() as usize));
}
export! {
    h_c21_last => last, h_c21_near => near, h_c21_lengths => lengths, h_c21_ids => ids, h_c21_critical => critical, h_c21_unknown => unknown,
    h_c21_known => known, h_c21_flip => flip, h_c21_cut => cut, h_c21_edits => edits, h_c21_all => all,
}
