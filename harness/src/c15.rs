use crate::common::*;
use crate::sym::*;

fn verdict(ok: bool) {
    if ok {
        cover("accepted");
    } else {
        cover("rejected");
    }
}
/// 0 small; 1 all optional fields; 2 minimal version 1; 3 small with parameters everywhere
fn template(k: u64) -> Vec<u8> {
    let mut p = Parts::small();
    match k {
        0 => {}
        1 => return Parts::full().build(),
        2 => p.version = vec![],
        4 => p.spki = seq(&[&seq(&[&oid(&[0x2a, 3])]), &bits(0, &[0x6b; 300])]),
        5 => p.exts = Parts::ext_field(&[ext(&[0x2a, 3], 0, &vec![4; 70000])]),
        _ => {
            p.sig = seq(&[&oid(&[0x2a, 3]), &[5, 0]]);
            p.sig_alg = seq(&[&oid(&[0x2a, 3]), &[4, 1, 7]]);
            p.spki = seq(&[&seq(&[&oid(&[0x2a, 3]), &oid(&[0x2a, 5])]), &bits(4, &[0xa0])]);
            p.iuid = tlv(0x81, &[0, 0x5a]);
        }
    }
    p.build()
}
/// cut off anywhere (or not at all)
fn cut() {
    let b = template(arg());
    let n = place(b.len() + 1);
    verdict(compare_cert(&b[..n]));
}
/// cut off anywhere, with the two outermost lengths adjusted to the cut
fn cut_inner() {
    let b = template(arg());
    let n = place(b.len());
    let t = match crate::refm::elem(&b, 0, b.len()) {
        Some((o, _)) => o,
        None => fail("template broken"),
    };
    assume(n >= t.start);
    let depth = choose(0, 1);
    if depth == 0 {
        verdict(compare_cert(&tlv(0x30, &b[t.start..n])));
    } else {
        let u = match crate::refm::elem(&b, t.start, t.start + t.len) {
            Some((u, _)) => u,
            None => fail("template broken"),
        };
        let end = u.start + u.len;
        assume(n >= u.start);
        assume(n <= end);
        verdict(compare_cert(&tlv(0x30, &cat(&[&tlv(0x30, &b[u.start..n]), &b[end..]]))));
    }
}
/// `arg` / 4 arbitrary octets behind
fn append() {
    verdict(compare_cert(&cat(&[&template(arg() % 4), &bytes(arg() as usize / 4)])));
}
/// octets no certificate begins with
fn no_element() {
    let b = junk(arg() as usize);
    verdict(compare_cert(&b));
    verdict(compare_cert(&cat(&[&b, &template(0)])));
}
/// one arbitrary octet anywhere
fn flip() {
    let mut b = template(arg());
    corrupt(&mut b);
    verdict(compare_cert(&b));
}
/// two arbitrary octets next to each other, anywhere
fn flip2() {
    let mut b = template(arg());
    let p = place(b.len() - 1);
    fill(&mut b[p..p + 2]);
    verdict(compare_cert(&b));
}
/// two arbitrary octets at any two places of the small certificate
fn flip3() {
    let mut b = template(0);
    let p = corrupt(&mut b);
    let q = corrupt(&mut b);
    assume(p < q);
    verdict(compare_cert(&b));
}
/// one structural edit anywhere, new elements with `arg` / 4 octets of contents
fn edits() {
    verdict(compare_cert(&edit(&template(arg() % 4), arg() as usize / 4)));
}
/// two structural edits
fn edits2() {
    let b = edit(&template(arg() % 4), 1);
    verdict(compare_cert(&edit(&b, 0)));
}
/// one octet inserted or left out anywhere, lengths as they were
fn shift() {
    let b = template(arg());
    let p = place(b.len());
    if choose(0, 1) == 0 {
        verdict(compare_cert(&cat(&[&b[..p], &bytes(1), &b[p..]])));
    } else {
        verdict(compare_cert(&cat(&[&b[..p], &b[p + 1..]])));
    }
}
/// any `arg` octets
fn all() {
    verdict(compare_cert(&bytes(arg() as usize)));
}
/// one surplus octet at the end of a container's contents, the lengths around it adjusted
fn stray() {
    let b = template(arg());
    let mut t = tree(&b, (0, b.len()));
    let n = containers(&t);
    let mut k = place(n);
    let c = match container(&mut t, &mut k) {
        Some(c) => c,
        None => fail("template broken"),
    };
    let x = bytes(2);
    let one = choose(0, 1) == 0;
    c.push(Node::Leaf(if one { vec![x[0]] } else { x }));
    verdict(compare_cert(&flatten(&t)));
}
export! {
    h_c15_cut => cut, h_c15_junk => no_element, h_c15_cut_inner => cut_inner, h_c15_append => append, h_c15_flip => flip, h_c15_flip2 => flip2, h_c15_flip3 => flip3,
    h_c15_edits => edits, h_c15_edits2 => edits2, h_c15_shift => shift, h_c15_all => all, h_c15_stray => stray,
}
