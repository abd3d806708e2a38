//! No panic: the engine itself reports every panic, overflow and access outside an object.
use crate::common::*;
use crate::sym::*;
use crate::touch::*;
use rx509::x509::Name;

/// every input of arg octets, to every entry point
fn walk_all() {
    walk::<true>(&bytes(arg() as usize));
}
fn cert_all() {
    let b = bytes(arg() as usize);
    certificate(&b);
}
fn ext_all() {
    one(&bytes(arg() as usize));
}
fn name_all() {
    name(&Name { inner: &bytes(arg() as usize) });
}
/// the list of extensions, any arg octets
fn list_all() {
    let mut p = Parts::small();
    p.exts = tlv(0xa3, &bytes(arg() as usize));
    certificate(&p.build());
}
fn list_inside() {
    let mut p = Parts::small();
    p.exts = tlv(0xa3, &tlv(0x30, &tlv(0x30, &bytes(arg() as usize))));
    certificate(&p.build());
}
/// element of any identifier with any arg octets, announced as anything
fn element_any() {
    let n = arg() as usize;
    walk::<true>(&cat(&[&[byte(), byte()], &bytes(n)]));
}
/// arbitrary octets at both ends of long contents of each type
fn long() {
    let n = arg() as usize;
    let id = [2, 3, 4, 6, 0x0c, 0x13, 0x16, 0x17, 0x18][place(9)];
    let mut v = vec![0x31; n];
    fill(&mut v[..2]);
    fill(&mut v[n - 2..]);
    walk::<true>(&tlv(id, &v));
}
/// elements whose length field says anything
fn lengths() {
    let k = arg() as usize;
    let id = [2, 3, 4, 6, 0x30, 0xa0][place(6)];
    walk::<true>(&cat(&[&[id, 0x80 | k as u8], &bytes(k), &[0, 1, 2]]));
}
const IDS: &[&[u8]] = &[SKI, KU, SAN, BC, EKU, ROLE, &[0x55, 0x1d, 35]];
/// contents of arg / 8 arbitrary octets of each kind (arg % 8)
fn contents() {
    one(&ext_contents(IDS[arg() as usize % 8], choose(0, 2), &bytes(arg() as usize / 8)));
}
/// the same inside the element expected there
fn inside() {
    let k = arg() as usize % 8;
    one(&ext_contents(IDS[k], 0, &tlv([4, 3, 0x30, 0x30, 0x30, 0x0c, 0x30][k], &bytes(arg() as usize / 8))));
}
/// a certificate with one arbitrary octet anywhere
fn flip() {
    let mut b = if arg() == 0 { Parts::small().build() } else { Parts::full().build() };
    corrupt(&mut b);
    certificate(&b);
}
fn flip_walk() {
    let mut b = Parts::full().build();
    corrupt(&mut b);
    walk::<true>(&b);
}
/// two adjacent arbitrary octets in a certificate
fn flip2() {
    let mut b = Parts::small().build();
    let p = place(b.len() - 1);
    fill(&mut b[p..p + 2]);
    certificate(&b);
}
/// a certificate cut off anywhere
fn cut() {
    let b = if arg() == 0 { Parts::small().build() } else { Parts::full().build() };
    let n = place(b.len() + 1);
    certificate(&b[..n]);
    walk::<true>(&b[..n]);
}
/// structural edits
fn edits() {
    let b = if arg() & 1 == 0 { Parts::small().build() } else { Parts::full().build() };
    certificate(&edit(&b, arg() as usize / 2));
}
/// names with arbitrary attributes
fn attributes() {
    let n = arg() as usize;
    let a = cat(&[&[0x30, byte(), 6, byte(), 0x55, 4, byte()], &[byte(), byte()], &bytes(n)]);
    name(&Name { inner: &cat(&[&[0x31, byte()], &a]) });
}
/// deep nesting
fn nest() {
    let n = arg() as usize;
    let mut b = vec![];
    let id = [0x30, 0x31, 0xa0][place(3)];
    for _ in 0..n {
        b = tlv(id, &b);
    }
    walk::<true>(&b);
    certificate(&b);
    one(&b);
    name(&Name { inner: &b });
}
/// large inputs: kind `arg % 16`, some `arg / 16` octets, the last octets possibly missing
fn large() {
    let (b, f) = shape::<false>(arg() as usize % 16, arg() as usize / 16);
    let cut = choose(0, 1) as usize;
    f(&b[..b.len() - cut]);
}
/// text of `arg / 4` octets everywhere: ASCII, or longer characters at every offset
fn texts_() {
    let n = arg() as usize / 4;
    let t = if arg() % 4 < 2 { ascii(n) } else { runes(n) };
    if arg() % 2 == 0 {
        certificate(&texts(&t));
    } else {
        let id = [0x0c, 0x13, 0x16][place(3)];
        walk::<false>(&tlv(id, &t));
    }
}
export! {
    h_c01_walk_all => walk_all, h_c01_cert_all => cert_all, h_c01_ext_all => ext_all, h_c01_name_all => name_all, h_c01_list_all => list_all,
    h_c01_list_inside => list_inside, h_c01_element_any => element_any, h_c01_long => long, h_c01_lengths => lengths, h_c01_contents => contents,
    h_c01_inside => inside, h_c01_flip => flip, h_c01_flip_walk => flip_walk, h_c01_flip2 => flip2, h_c01_cut => cut, h_c01_edits => edits,
    h_c01_attributes => attributes, h_c01_nest => nest, h_c01_large => large, h_c01_texts => texts_
}
