use crate::common::*;
use crate::sym::*;

fn verdict(ok: bool) {
    if ok {
        cover("accepted");
    } else {
        cover("rejected");
    }
}
fn id() -> u8 {
    [0x0c, 0x13, 0x16][choose(0, 2) as usize]
}
/// all contents of `arg` octets
fn contents() {
    let i = id();
    verdict(compare_walk(&tlv(i, &bytes(arg() as usize))));
}
/// `arg` octets of ASCII with three arbitrary ones anywhere
fn window() {
    let n = arg() as usize;
    let i = id();
    let mut c = vec![b'x'; n];
    let p = place(n - 2);
    fill(&mut c[p..p + 3]);
    verdict(compare_walk(&tlv(i, &c)));
}
/// three arbitrary octets at the ends and around certain places in a long text of `arg` octets
fn far() {
    let n = arg() as usize;
    let i = id();
    let mut c = vec![b'x'; n];
    let at = [0, 61, 125, 253, 254, 255, 509, 1021, 4093, 32765, 65533, 65534, n - 4, n - 3];
    let p = at[choose(0, at.len() as u64 - 1) as usize];
    assume(p + 3 <= n);
    fill(&mut c[p..p + 3]);
    verdict(compare_walk(&tlv(i, &c)));
}
/// `arg` octets of ASCII
fn plain() {
    let i = id();
    verdict(compare_walk(&tlv(i, &ascii(arg() as usize))));
}
/// longer characters
fn wide() {
    let i = id();
    verdict(compare_walk(&seq(&[&tlv(i, &runes(arg() as usize)), &[5, 0]])));
}
/// between other elements
fn nested() {
    let i = id();
    let e = tlv(i, &bytes(arg() as usize));
    verdict(compare_walk(&seq(&[&[5, 0], &set(&[&e, &tlv(0x16, b"z")])])));
}
export! { h_c10_contents => contents, h_c10_window => window, h_c10_far => far, h_c10_ascii => plain, h_c10_runes => wide, h_c10_nested => nested }
