use crate::common::*;
use crate::sym::*;

fn verdict(b: &[u8]) {
    if compare_name(b) {
        cover("accepted");
    } else {
        cover("rejected");
    }
}
/// `arg` attributes, each with an arbitrary last arc, in every grouping into sets
fn grouping() {
    let n = arg() as usize;
    let mut sets: Vec<Vec<u8>> = vec![];
    for k in 0..n {
        let a = seq(&[&oid(&[0x55, 4, byte()]), &tlv([0x0c, 0x13, 0x16][k % 3], &[0x61 + k as u8])]);
        if k == 0 || choose(0, 1) == 0 {
            sets.push(a);
        } else if let Some(s) = sets.last_mut() {
            s.extend(a);
        }
    }
    let mut b = vec![];
    for s in &sets {
        b.extend(set(&[s]));
    }
    verdict(&b);
}
/// each of the six attributes with any type of value and any contents of `arg` octets
fn values() {
    let arcs = [3u8, 6, 7, 8, 10, 11, 5];
    let k = choose(0, 6) as usize;
    let b = set(&[&seq(&[&oid(&[0x55, 4, arcs[k]]), &tlv(byte(), &bytes(arg() as usize))])]);
    verdict(&cat(&[&set(&[&ava(arcs[(k + 1) % 6], 0x13, b"x")]), &b]));
}
/// strings of `arg` arbitrary octets
fn text() {
    let s = [0x0c, 0x13, 0x16][choose(0, 2) as usize];
    let arc = [3u8, 6, 7, 8, 10, 11][choose(0, 5) as usize];
    verdict(&set(&[&seq(&[&oid(&[0x55, 4, arc]), &tlv(s, &bytes(arg() as usize))])]));
}
/// strings of `arg` octets of which the first and last are arbitrary
fn long() {
    let s = [0x0c, 0x13, 0x16][choose(0, 2) as usize];
    let mut c = vec![b'm'; arg() as usize];
    let n = c.len();
    fill(&mut c[..1]);
    fill(&mut c[n - 1..]);
    verdict(&cat(&[&set(&[&ava(6, 0x13, b"NL")]), &set(&[&seq(&[&oid(&[0x55, 4, 11]), &tlv(s, &c)])])]));
}
/// arbitrary attribute identifiers: `arg` octets, or the known prefix followed by them
fn near() {
    let o = bytes(arg() as usize);
    let o = match choose(0, 3) {
        0 => o,
        1 => cat(&[&[0x55, 4], &o]),
        2 => cat(&[&[0x55], &o]),
        _ => cat(&[&o, &[4, 3]]),
    };
    verdict(&cat(&[&set(&[&ava(10, 0x13, b"a")]), &set(&[&seq(&[&oid(&o), &tlv(0x0c, b"b")])])]));
}
fn template() -> Vec<u8> {
    cat(&[
        &set(&[&ava(6, 0x13, b"NL")]),
        &set(&[&ava(8, 0x0c, b"ST"), &ava(7, 0x16, "\u{e9}\u{20ac}".as_bytes())]),
        &set(&[&ava(5, 0x02, b"12"), &ava(10, 0x13, b""), &ava(11, 0x0c, b"OU"), &ava(3, 0x13, b"CN")]),
    ])
}
fn flip() {
    let mut b = template();
    corrupt(&mut b);
    verdict(&b);
}
fn flip2() {
    let mut b = template();
    let p = place(b.len() - 1);
    fill(&mut b[p..p + 2]);
    verdict(&b);
}
fn cut() {
    let b = template();
    let n = place(b.len() + 1);
    verdict(&b[..n]);
}
fn edits() {
    verdict(&edit(&template(), arg() as usize));
}
/// any `arg` octets; or as the contents of one set, or of one attribute
fn all() {
    let b = bytes(arg() as usize);
    match choose(0, 2) {
        0 => verdict(&b),
        1 => verdict(&set(&[&b])),
        _ => verdict(&set(&[&tlv(0x30, &b)])),
    }
}
/// `arg` attributes from the six and an unknown one, in every order, one per set
fn order() {
    let arcs = [3u8, 6, 7, 8, 10, 11, 65];
    let mut b = vec![];
    for k in 0..arg() as usize {
        b.extend(set(&[&ava(arcs[choose(0, 6) as usize], 0x0c, &[0x41 + k as u8, 0x41])]));
    }
    verdict(&b);
}
/// the names of a parsed certificate
fn in_cert() {
    let mut p = Parts::small();
    let n = set(&[&ava(byte(), 0x0c, b"v")]);
    let m = set(&[&ava(byte(), 0x13, b"w")]);
    p.issuer = tlv(0x30, &n);
    p.subject = tlv(0x30, &m);
    let b = p.build();
    match rx509::x509::Certificate::parse(&b) {
        Ok(c) => {
            let t = &c.tbs_certificate.value;
            check(same(t.issuer.inner, &n) && same(t.subject.inner, &m), "raw names differ");
            verdict(t.issuer.inner);
            verdict(t.subject.inner);
            for (x, (raw, text)) in [&t.issuer, &t.subject].iter().zip([(&n, "v"), (&m, "w")]) {
                match x.parse() {
                    Ok(g) => {
                        let arc = raw[8];
                        let want = |a: u8, v: Option<&str>| {
                            check((arc == a) == v.is_some(), "component present exactly for its attribute");
                            if let Some(v) = v {
                                check(v == text, "text differs");
                            }
                        };
                        want(3, g.common_name);
                        want(6, g.country_name);
                        want(7, g.locality_name);
                        want(8, g.state_or_province_unit_name);
                        want(10, g.organization);
                        want(11, g.organizational_unit_name);
                    }
                    Err(_) => {}
                }
            }
        }
        Err(_) => fail("certificate rejected"),
    }
}
/// `arg` attributes that are ignored, in one set or in sets of their own, then two of any kind
fn many() {
    let one = choose(0, 1) == 0;
    let mut b = vec![];
    for k in 0..arg() as usize {
        let a = ava(64 + (k % 64) as u8, 0x0c, &[b'a' + (k % 26) as u8]);
        b.extend(if one { a } else { set(&[&a]) });
    }
    let x = ava(3, 0x13, b"first");
    let y = seq(&[&oid(&[0x55, 4, byte()]), &tlv(0x16, b"last")]);
    let l = cat(&[&x, &b, &y]);
    verdict(&if one { set(&[&l]) } else { cat(&[&set(&[&x]), &b, &set(&[&y])]) });
}
/// `arg` octets of ASCII in each component
fn plain() {
    let s = [0x0c, 0x13, 0x16][choose(0, 2) as usize];
    let arc = [3u8, 6, 7, 8, 10, 11][choose(0, 5) as usize];
    let t = ascii(arg() as usize);
    verdict(&cat(&[&set(&[&ava(arc, s, &t)]), &set(&[&ava(64, s, &t)])]));
}
/// longer characters
fn wide() {
    let s = [0x0c, 0x13, 0x16][choose(0, 2) as usize];
    let arc = [3u8, 6, 7, 8, 10, 11][choose(0, 5) as usize];
    verdict(&set(&[&ava(arc, s, &runes(arg() as usize))]));
}
export! {
    h_c19_grouping => grouping, h_c19_many => many, h_c19_ascii => plain, h_c19_runes => wide, h_c19_values => values, h_c19_text => text, h_c19_long => long, h_c19_near => near, h_c19_flip => flip,
    h_c19_flip2 => flip2, h_c19_cut => cut, h_c19_edits => edits, h_c19_all => all, h_c19_order => order, h_c19_in_cert => in_cert,
}
