use crate::common::*;
use crate::refm;
use crate::sym::*;
use rx509::der::*;

/// The identifiers with a name, and words of which the name consists (whatever its spelling).
const KNOWN: &[(&[u32], &[&[u8]], &[u8])] = &[
    (&[1, 2, 840, 113549, 1, 1, 1], &[b"rsa", b"encryption"], &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1]),
    (&[1, 2, 840, 113549, 1, 1, 5], &[b"sha1", b"rsa"], &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 5]),
    (&[1, 3, 101, 112], &[b"ed25519"], &[0x2b, 0x65, 0x70]),
    (&[2, 5, 4, 3], &[b"common", b"name"], &[0x55, 4, 3]),
    (&[2, 5, 4, 6], &[b"country"], &[0x55, 4, 6]),
    (&[2, 5, 4, 7], &[b"locality"], &[0x55, 4, 7]),
    (&[2, 5, 4, 8], &[b"state"], &[0x55, 4, 8]),
    (&[2, 5, 4, 10], &[b"organization"], &[0x55, 4, 10]),
    (&[2, 5, 4, 11], &[b"organization", b"unit"], &[0x55, 4, 11]),
    (&[1, 2, 840, 113549, 1, 9, 1], &[b"mail"], &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 9, 1]),
];

fn number(s: &[u8], at: usize, v: u32) -> Option<usize> {
    let mut b = [0u8; 20];
    let n = digits(v as u64, &mut b);
    if s.len() < at + n || !same(&s[at..at + n], &b[20 - n..]) {
        return None;
    }
    Some(at + n)
}
/// `s` is all of `arcs` in decimal with dots between
fn dotted(s: &[u8], arcs: &[u32]) -> bool {
    let mut at = 0;
    for (k, a) in arcs.iter().enumerate() {
        if k > 0 {
            if s.get(at) != Some(&b'.') {
                return false;
            }
            at += 1;
        }
        match number(s, at, *a) {
            Some(n) => at = n,
            None => return false,
        }
    }
    at == s.len()
}
fn plain(s: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for c in s {
        if c.is_ascii_alphanumeric() {
            o.push(c.to_ascii_lowercase());
        }
    }
    o
}
fn holds(s: &[u8], w: &[u8]) -> bool {
    s.windows(w.len()).any(|x| same(x, w))
}
fn verdict(s: &[u8], arcs: &[u32]) {
    observe_bytes(s);
    for (k, words, _) in KNOWN {
        if same_arcs(k, arcs) {
            let p = plain(s);
            for w in *words {
                check(holds(&p, w), "a known identifier does not display as its name");
            }
            check(words.len() != 1 || words[0] != b"organization" || !holds(&p, b"unit"), "a known identifier displays as another's name");
            cover("name");
            return;
        }
    }
    check(dotted(s, arcs), "an identifier without a name does not display as its arcs in order");
    cover("dotted");
}
fn shown(arcs: Vec<u32>) {
    let o = ASNObjectIdentifier::new(arcs.clone());
    check(same_arcs(o.values(), &arcs), "arcs differ from those given");
    verdict(&show(&o), &arcs);
}
fn arc() -> u32 {
    let mut b = [0u8; 4];
    fill(&mut b);
    u32::from_be_bytes(b)
}
/// all identifiers of arg arcs
fn all() {
    let mut v = vec![];
    for _ in 0..arg() {
        v.push(arc());
    }
    shown(v);
}
/// arg arcs below 10, one of them arbitrary
fn long() {
    let n = arg() as usize;
    let mut v = vec![];
    if n <= 260 {
        for x in bytes(n) {
            v.push(x as u32);
        }
        let mut ok = true;
        for x in &v {
            ok &= *x < 10;
        }
        assume(ok);
    } else {
        for k in 0..n as u32 {
            v.push(k % 7 + k % 3);
        }
    }
    let p = if n <= 260 { place(n) } else { [0, 1, 2, 127, 128, 255, 256, n / 2, n - 2, n - 1][choose(0, 9) as usize] };
    v[p] = arc();
    shown(v);
}
fn pick() -> (Vec<u32>, usize) {
    let k = place(KNOWN.len());
    (KNOWN[k].0.to_vec(), k)
}
/// a known identifier with one arc arbitrary
fn near() {
    let (mut v, _) = pick();
    let p = place(v.len());
    v[p] = arc();
    shown(v);
}
/// with two
fn near2() {
    let (mut v, _) = pick();
    let p = place(v.len());
    let q = place(v.len());
    assume(p < q);
    v[p] = arc();
    v[q] = arc();
    shown(v);
}
/// an arc removed, or an arbitrary one inserted, or two swapped
fn shift() {
    let (mut v, _) = pick();
    let p = place(v.len() + 1);
    match choose(0, 2) {
        0 => {
            assume(p < v.len());
            v.remove(p);
        }
        1 => v.insert(p, arc()),
        _ => {
            assume(p + 1 < v.len());
            v.swap(p, p + 1);
        }
    }
    shown(v);
}
/// a proper beginning of a known identifier, or more behind it
fn ends() {
    let (mut v, _) = pick();
    let n = place(v.len() + 3);
    while v.len() > n {
        v.pop();
    }
    while v.len() < n {
        v.push(arc());
    }
    shown(v);
}

/// As part of what is displayed for the element in a document.
struct Elem {
    text: Vec<Vec<u8>>,
}
impl ParseHandler for Elem {
    fn begin_constructed(&mut self) {}
    fn end_constructed(&mut self) {}
    fn on_type(&mut self, t: &ASNType) {
        if let ASNType::ObjectIdentifier(x) = t {
            let s = show(&x.value);
            let whole = show(t);
            check(whole.len() >= s.len() && same(&whole[whole.len() - s.len()..], &s), "the element displays another identifier");
            self.text.push(s);
        }
    }
    fn on_error(&mut self, _: &ASNError) {}
}
fn encoded(c: &[u8]) {
    let b = tlv(6, c);
    let mut e = Elem { text: vec![] };
    let _ = parse_all(&b, &mut e);
    if let Some((w, _)) = refm::elem(&b, 0, b.len()) {
        check(e.text.len() == 1, "identifier not delivered");
        verdict(&e.text[0], &w.arcs);
    }
}
/// contents of arg octets
fn contents() {
    encoded(&bytes(arg() as usize));
}
/// arg octets behind the first of a known identifier
fn tail() {
    let c = KNOWN[place(KNOWN.len())].2;
    encoded(&cat(&[&c[..1], &bytes(arg() as usize)]));
}
/// the last arg octets of a known identifier arbitrary
fn last() {
    let mut c = KNOWN[place(KNOWN.len())].2.to_vec();
    let n = c.len();
    assume(n > arg() as usize);
    fill(&mut c[n - arg() as usize..]);
    encoded(&c);
}
/// one octet of a known identifier arbitrary
fn flip() {
    let mut c = KNOWN[place(KNOWN.len())].2.to_vec();
    corrupt(&mut c);
    encoded(&c);
}
/// cut, or one arbitrary octet behind
fn cut() {
    let mut c = KNOWN[place(KNOWN.len())].2.to_vec();
    if choose(0, 1) == 0 {
        c.pop();
    } else {
        c.push(byte());
    }
    encoded(&c);
}
/// names are told apart
fn distinct() {
    let a = place(KNOWN.len());
    let b = place(KNOWN.len());
    assume(a < b);
    let s = show(&ASNObjectIdentifier::new(KNOWN[a].0.to_vec()));
    let t = show(&ASNObjectIdentifier::new(KNOWN[b].0.to_vec()));
    check(!same(&s, &t), "two known identifiers display alike");
}
export! {
    h_c28_all => all, h_c28_long => long, h_c28_near => near, h_c28_near2 => near2, h_c28_shift => shift, h_c28_ends => ends,
    h_c28_contents => contents, h_c28_flip => flip, h_c28_cut => cut, h_c28_tail => tail, h_c28_last => last, h_c28_distinct => distinct,
}
