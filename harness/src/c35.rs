//! Every element shows its type and value, and the tool's listing has them all, each on its own
//! line and as deep as it is nested.
use crate::common::*;
use crate::os::*;
use crate::refm::{self, Ev, K};
use crate::sym::*;
use rx509::der::*;

static mut DOC: Vec<u8> = vec![];
#[allow(static_mut_refs)]
fn doc() -> &'static [u8] {
    unsafe { &DOC }
}
fn after<'t>(t: &'t [u8], pre: &[u8]) -> Option<&'t [u8]> {
    if t.len() >= pre.len() && same(&t[..pre.len()], pre) {
        Some(&t[pre.len()..])
    } else {
        None
    }
}
fn dotted(mut s: &[u8], arcs: &[u32]) -> bool {
    for (k, a) in arcs.iter().enumerate() {
        if k > 0 {
            s = match after(s, b".") {
                Some(r) => r,
                None => return false,
            };
        }
        let mut b = [0u8; 20];
        let n = digits(*a as u64, &mut b);
        s = match after(s, &b[20 - n..]) {
            Some(r) => r,
            None => return false,
        };
    }
    s.is_empty()
}
fn known(arcs: &[u32]) -> Option<&'static str> {
    let n: &[(&[u32], &str)] = &[
        (&[1, 2, 840, 113549, 1, 1, 1], "RSA Encryption"),
        (&[1, 2, 840, 113549, 1, 1, 5], "SHA1 with RSA Signature"),
        (&[1, 3, 101, 112], "Ed25519 Signature"),
        (&[2, 5, 4, 3], "Common Name"),
        (&[2, 5, 4, 6], "Country Name"),
        (&[2, 5, 4, 7], "Locality Name"),
        (&[2, 5, 4, 8], "State or Province Name"),
        (&[2, 5, 4, 10], "Organization Name"),
        (&[2, 5, 4, 11], "Organizational Unit Name"),
        (&[1, 2, 840, 113549, 1, 9, 1], "Email Address"),
    ];
    for (a, t) in n {
        if same_arcs(a, arcs) {
            return Some(t);
        }
    }
    None
}
/// The numbers of the library's own elements, checked against the reference: what is shown is
/// compared with the former, which spares the solver to find both the same digit by digit.
#[derive(Default)]
struct Own {
    arcs: Vec<u32>,
    v: u64,
}
fn own(t: &ASNType, e: &Ev) -> Own {
    let mut r = Own { arcs: vec![], v: e.v };
    match t {
        ASNType::ObjectIdentifier(x) => {
            check(same_arcs(x.value.values(), &e.arcs), "another identifier");
            r.arcs = x.value.values().to_vec();
        }
        ASNType::UTCTime(x) => {
            check(x.value == e.v, "another time");
            r.v = x.value;
        }
        _ => {}
    }
    r
}
/// collects them in a walk of its own
struct Gather<'w> {
    want: Vec<&'w Ev>,
    got: Vec<Own>,
}
impl ParseHandler for Gather<'_> {
    fn begin_constructed(&mut self) {}
    fn end_constructed(&mut self) {}
    fn on_type(&mut self, t: &ASNType) {
        check(self.got.len() < self.want.len(), "more elements than there are");
        self.got.push(own(t, self.want[self.got.len()]));
    }
    fn on_error(&mut self, _: &ASNError) {}
}
/// `t` states type and value of `e`.
fn states(t: &[u8], b: &[u8], e: &Ev, own: &Own) -> bool {
    let (s, n) = (e.start, e.start + e.len);
    let c = &b[s..n];
    match e.k {
        K::Bool => same(t, if e.v == 1 { b"Boolean: true" } else { b"Boolean: false" }),
        K::Seq => same(t, b"Sequence"),
        K::Set => same(t, b"Set"),
        K::Null => same(t, b"Null"),
        K::Bits => same(t, b"BitString"),
        K::Octets => same(t, b"OctetString"),
        K::Utf8 => after(t, b"UTF8String: ").map_or(false, |t| same(t, c)),
        K::Printable => after(t, b"PrintableString: ").map_or(false, |t| same(t, c)),
        K::Ia5 => after(t, b"IA5String: ").map_or(false, |t| same(t, c)),
        K::Time => after(t, b"UTCTime: ").or(after(t, b"GeneralizedTime: ")).map_or(false, |t| unsigned(t, own.v)),
        K::Ctx => t.len() > 2 && t[0] == b'[' && t[t.len() - 1] == b']' && unsigned(&t[1..t.len() - 1], e.v),
        K::Int => after(t, b"Integer: ").map_or(false, |t| match refm::int32(c) {
            Some(v) => decimal(t, v),
            None => hex(t, c),
        }),
        K::Oid => after(t, b"ObjectIdentifier: ").map_or(false, |t| match known(&own.arcs) {
            Some(k) => same(t, k.as_bytes()),
            None => dotted(t, &own.arcs),
        }),
        K::Begin | K::End => false,
    }
}
fn stated(t: &ASNType, b: &[u8], e: &Ev) {
    let s = show(t);
    observe_bytes(&s);
    check(states(&s, b, e, &own(t, e)), "an element does not show as its type and value");
    cover("shown");
}
fn shown(b: &[u8]) {
    compare_walk_with(b, stated);
}
/// all inputs of `arg` octets
fn all() {
    shown(&bytes(arg() as usize));
}
const KINDS: [u8; 13] = [1, 2, 3, 4, 5, 6, 0x0c, 0x13, 0x16, 0x17, 0x18, 0x30, 0xa1];
/// `arg / 16` octets of each type inside others
fn kinds() {
    let e = tlv(KINDS[arg() as usize % 16], &bytes(arg() as usize / 16));
    shown(&cat(&[&[5, 0], &tlv(0x31, &e), &[1, 1, 255]]));
}
/// times: two digits arbitrary anywhere
fn times() {
    let mut t = if arg() == 0 { b"991231235959Z".to_vec() } else { b"20491231235959Z".to_vec() };
    let p = place(t.len() - 1);
    fill(&mut t[p..p + 2]);
    shown(&tlv(if arg() == 0 { 0x17 } else { 0x18 }, &t));
}
/// long contents, arbitrary at both ends: type `arg % 16`, octets `arg / 16`
fn long() {
    let k = KINDS[arg() as usize % 16];
    let n = arg() as usize / 16;
    let mut c = vec![if k == 3 { 0 } else { 0x41 }; n];
    c[0] = byte();
    c[n / 2] = byte();
    c[n - 1] = byte();
    if k == 6 {
        let mut ok = true;
        for x in [0, n / 2, n - 1] {
            ok &= c[x] < 128;
        }
        assume(ok);
    }
    shown(&tlv(k, &c));
}
/// text of `arg / 2` octets
fn some_text() -> Vec<u8> {
    let n = arg() as usize / 2;
    let t = if arg() % 2 == 0 { ascii(n) } else { runes(n) };
    let id = [0x0c, 0x13, 0x16][choose(0, 2) as usize];
    cat(&[&tlv(id, &t), &[5, 0], &tlv(0x31, &tlv(id, &t))])
}
fn texts_() {
    shown(&some_text());
}
/// every known identifier, one octet arbitrary
fn ids() {
    let mut c = [&[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1][..], &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 9, 1], &[0x2b, 0x65, 0x70], &[0x55, 4, 3]][arg() as usize].to_vec();
    corrupt(&mut c);
    shown(&oid(&c));
}
fn sample() -> Vec<u8> {
    cat(&[
        &seq(&[&[1, 1, 255], &[2, 2, 1, 0], &set(&[&bits(0, &[0xa8, 7]), &[5, 0]]), &tlv(0xa2, &cat(&[&oid(&[0x2a, 0x86, 0x48]), &tlv(0x0c, b"\xc3\xa9")]))]),
        &tlv(0x13, b"P"),
        &tlv(0x85, &tlv(0x16, b"I")),
        &tlv(0x17, b"490131235959Z"),
        &[4, 0],
    ])
}
fn flip() {
    let mut b = sample();
    corrupt(&mut b);
    shown(&b);
}

// ------------------------------------------------------------------ the listing

fn with(b: Vec<u8>) -> ! {
    unsafe { DOC = b };
    tool(start, &["--der", NAME], Fs::File(doc()), listing)
}
fn listing(r: &Run) {
    observe(r.code as u64);
    observe_bytes(&r.out);
    let b = doc();
    let mut want = vec![];
    let ok = refm::walk(b, (0, b.len()), &mut want);
    let mut g = Gather { want: want.iter().filter(|e| !matches!(e.k, K::Begin | K::End)).collect(), got: vec![] };
    let _ = parse_all(b, &mut g);
    let mut nums = g.got.iter();
    let out = &r.out[..];
    let mut at = 0;
    let mut depth = 0;
    let mut lv = Levels::default();
    for e in &want {
        match e.k {
            K::Begin => depth += 1,
            K::End => depth -= 1,
            _ => {
                let n = indent(&out[at..]);
                lv.check(depth, n);
                at += n;
                // text may hold line ends of its own
                let text = matches!(e.k, K::Utf8 | K::Printable | K::Ia5);
                let mut end = at;
                if text {
                    end += e.len + [b"UTF8String: ".len(), b"PrintableString: ".len(), b"IA5String: ".len()][(e.k == K::Printable) as usize + 2 * (e.k == K::Ia5) as usize];
                } else {
                    while end < out.len() && out[end] != b'\n' {
                        end += 1;
                    }
                }
                check(end < out.len() && out[end] == b'\n', "an element's line is missing");
                let none = Own::default();
                let own = nums.next().unwrap_or(&none);
                check(states(&out[at..end], b, e, own), "an element's line does not state its type and value");
                at = end + 1;
                if e.k == K::Bits && e.v == 0 {
                    for c in b[e.start..e.start + e.len].chunks(16) {
                        let n = indent(&out[at..]);
                        lv.check(depth + 1, n);
                        at += n;
                        let end = at + 3 * c.len() - 1;
                        check(end < out.len() && out[end] == b'\n', "the octets of a bit string are not all there");
                        check(hex(&out[at..end], c), "the octets of a bit string are not shown as they are");
                        at = end + 1;
                        cover("dump");
                    }
                }
                cover("line");
            }
        }
    }
    if ok {
        check(at == out.len(), "output beyond the elements");
        cover("whole");
    } else {
        check(!r.err.is_empty() || mentions(&out[at..], b"error"), "the listing ends early without a word");
        cover("broken off");
    }
}
fn list_all() {
    with(bytes(arg() as usize))
}
fn list_texts() {
    with(some_text())
}
fn list_flip() {
    let mut b = sample();
    corrupt(&mut b);
    with(b)
}
fn list_cut() {
    let b = sample();
    let n = place(b.len() + 1);
    with(b[..n].to_vec())
}
/// bit strings of `arg` octets, the outer ones nested
fn list_bits() {
    let n = arg() as usize;
    let c = span(n);
    let mut u = byte();
    if n == 0 {
        u = 0;
    }
    assume(u < 2);
    with(cat(&[&bits(0, &c), &tlv(0x30, &cat(&[&tlv(0xa0, &bits(u, &c)), &[5, 0]])), &tlv(4, &[1])]))
}
/// `arg` levels of containers of three arbitrary kinds in turn, with elements before and behind
fn list_nest() {
    let kinds = bytes(3);
    for x in &kinds {
        assume(*x == 0x30 || *x == 0x31 || (*x >= 0xa0 && *x <= 0xbe));
    }
    let mut b = vec![2, 1, 7];
    for j in 0..arg() as usize {
        b = tlv(kinds[j % 3], &b);
        if j % 2 == 0 {
            b = cat(&[&[1, 1, 0], &b, &bits(0, &[j as u8])]);
        }
    }
    with(b)
}
/// `arg` elements side by side
fn list_many() {
    let x = bytes(2);
    let mut b = vec![];
    for j in 0..arg() as usize {
        b.extend(match j % 4 {
            0 => vec![2, 1, x[0]],
            1 => vec![5, 0],
            2 => tlv(0x31, &[]),
            _ => tlv(4, &x),
        });
    }
    with(b)
}
export! {
    h_c35_all => all, h_c35_kinds => kinds, h_c35_times => times, h_c35_long => long, h_c35_texts => texts_, h_c35_list_texts => list_texts, h_c35_ids => ids, h_c35_flip => flip,
    h_c35_list_all => list_all, h_c35_list_flip => list_flip, h_c35_list_cut => list_cut, h_c35_list_bits => list_bits,
    h_c35_list_nest => list_nest, h_c35_list_many => list_many,
}
