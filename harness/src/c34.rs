//! The error says what is wrong: the first malformed element's own defect, with its own numbers.
use crate::common::*;
use crate::refm::{self, Cur, Ev, K, R};
use crate::sym::*;
use rx509::der::*;
use rx509::x509::ext::*;
use rx509::x509::*;

/// An acceptable wording: text before a number, the number, text behind it.
struct Say {
    pre: Vec<u8>,
    number: Option<u64>,
    minus: bool,
    post: Vec<u8>,
    /// whatever follows is left open
    open: bool,
}
fn plain(t: &str) -> Say {
    Say { pre: t.as_bytes().to_vec(), number: None, minus: false, post: vec![], open: false }
}
fn count(pre: &str, n: u64, post: &str) -> Say {
    Say { pre: pre.as_bytes().to_vec(), number: Some(n), minus: false, post: post.as_bytes().to_vec(), open: false }
}
fn signed(pre: &str, n: i64, post: &str) -> Say {
    let mut s = count(pre, magnitude(n), post);
    s.minus = n < 0;
    s
}
fn starts(t: &str) -> Say {
    let mut s = plain(t);
    s.open = true;
    s
}
impl Say {
    fn fits(&self, t: &[u8]) -> bool {
        if t.len() < self.pre.len() || !same(&t[..self.pre.len()], &self.pre) {
            return false;
        }
        let mut t = &t[self.pre.len()..];
        if self.open {
            return true;
        }
        if self.minus {
            if t.first() != Some(&b'-') {
                return false;
            }
            t = &t[1..];
        }
        match self.number {
            None => t.len() == self.post.len() && same(t, &self.post),
            Some(n) => t.len() > self.post.len() && same(&t[t.len() - self.post.len()..], &self.post) && unsigned(&t[..t.len() - self.post.len()], n),
        }
    }
}
fn told(e: &dyn core::fmt::Display, say: &[Say]) {
    let t = show(e);
    observe_bytes(&t);
    let mut ok = false;
    for s in say {
        if s.fits(&t) {
            ok = true;
            break;
        }
    }
    check(ok, "the error does not name the defect");
    cover("told");
}
fn end() -> Say {
    plain("Consumed all input before parsing required fields")
}
fn unsupported(id: u8, bracket: bool) -> Say {
    let class = ["Universal", "Application", "ContextSpecific", "Private"][concretize(id as u64 / 64) as usize];
    let pc = if id & 32 == 0 { "Primitive" } else { "Constructed" };
    let mut s = count(&(["Unsupported id: Identifier { class: ", class, ", pc: ", pc, ", tag: "].concat()), id as u64 % 32, " }");
    // a closing bracket follows
    if bracket {
        s.post.push(b')');
    }
    s
}
/// What is wrong with the length octets at `p`.
fn length(b: &[u8], p: usize) -> Option<Say> {
    if p == b.len() {
        return Some(end());
    }
    let f = b[p];
    if f < 128 {
        return None;
    }
    let n = f as u64 - 128;
    if n == 0 {
        return Some(plain("Encountered indefinite length encoding. Not allowed in DER."));
    }
    if n == 127 {
        return Some(plain("Length byte count of 127 is reserved"));
    }
    if n > 4 {
        return Some(count("Length byte count of ", n, " not supported"));
    }
    let n = concretize(n) as usize;
    if n > b.len() - p - 1 {
        return Some(end());
    }
    let mut v = 0u64;
    for x in &b[p + 1..p + 1 + n] {
        v = v * 256 + *x as u64;
    }
    let short = if n == 1 { v < 128 } else { v >> (8 * (n - 1)) == 0 };
    if short {
        return Some(count("Value ", v, [" encoded using 1 bytes", " encoded using 2 bytes", " encoded using 3 bytes", " encoded using 4 bytes"][n - 1]));
    }
    None
}
/// What may be said of contents that are not right.
fn contents(k: K, c: &[u8], out: &mut Vec<Say>) {
    let n = c.len() as u64;
    match k {
        K::Bool => {
            if n != 1 {
                out.push(count("Bad boolean length: ", n, ""));
            } else {
                out.push(count("Bad boolean value: ", c[0] as u64, ""));
            }
        }
        K::Int => out.push(plain("zero length integer")),
        K::Null => out.push(count("NULL type w/ non-empty contents (length == ", n, ")")),
        K::Bits => {
            if n == 0 {
                out.push(end());
            } else {
                out.push(count("Bit string w/ unused bits outside range [0..7]: ", c[0] as u64, ""));
            }
        }
        K::Oid => {
            // which of several sub-identifiers is looked at first is left open
            let mut run = 0;
            let mut bad = false;
            for (i, x) in c.iter().enumerate() {
                bad |= run == 0 && *x == 0x80;
                run = if *x < 128 { 0 } else { run + 1 };
                bad |= run == 4;
                let _ = i;
            }
            if bad {
                out.push(plain("Bad OID length"));
            }
            if run > 0 || n == 0 {
                out.push(end());
            }
        }
        K::Utf8 | K::Printable | K::Ia5 => out.push(starts("Bad UTF8 encoding: ")),
        K::Time => out.push(plain("Bad UTC time string")),
        _ => {}
    }
}
/// What may be said of the malformed element at `p`.
fn element(b: &[u8], p: usize) -> Vec<Say> {
    let mut out = vec![];
    let k = refm::kind(b[p]);
    if k.is_none() {
        out.push(unsupported(b[p], true));
        out.push(unsupported(b[p], false));
    }
    match length(b, p + 1) {
        Some(s) => out.push(s),
        None => {
            if let Some((n, q)) = refm::length(b, p + 1, b.len()) {
                if n > (b.len() - q) as u64 {
                    out.push(end());
                } else if let Some(k) = k {
                    contents(k, &b[q..q + n as usize], &mut out);
                }
            }
        }
    }
    out
}
/// What may be said of the first element that is not right; `None` when all are.
fn defect(b: &[u8]) -> Option<Vec<Say>> {
    let mut p = 0;
    while p < b.len() {
        match refm::elem(b, p, b.len()) {
            Some((e, q)) => {
                p = q;
                if e.container() {
                    let (s, t) = e.range();
                    if let Some(d) = defect(&b[s..t]) {
                        return Some(d);
                    }
                }
            }
            None => {
                let out = element(b, p);
                return Some(out);
            }
        }
    }
    None
}
struct Quiet;
impl ParseHandler for Quiet {
    fn begin_constructed(&mut self) {}
    fn end_constructed(&mut self) {}
    fn on_type(&mut self, _: &ASNType) {}
    fn on_error(&mut self, _: &ASNError) {}
}
fn walk(b: &[u8]) {
    if let Err(e) = parse_all(b, &mut Quiet) {
        match defect(b) {
            Some(d) => told(&e, &d),
            None => fail("an error for a document without a defect"),
        }
    }
}
/// all inputs of `arg` octets
fn all() {
    walk(&bytes(arg() as usize));
}
const KINDS: [u8; 13] = [1, 2, 3, 4, 5, 6, 0x0c, 0x13, 0x16, 0x17, 0x18, 0x30, 0xa1];
/// contents of `arg / 16` octets for each type, inside others
fn kinds() {
    let e = tlv(KINDS[arg() as usize % 16], &bytes(arg() as usize / 16));
    walk(&cat(&[&[5, 0], &tlv(0x30, &cat(&[&[2, 1, 9], &tlv(0x31, &e)])), &[1, 1, 255]]));
}
/// as many octets as do not fit, for the types of fixed size, with length octets of every form
fn sizes() {
    let n = arg() as usize / 2;
    let e = if arg() % 2 == 0 { tlv(1, &vec![0; n]) } else { tlv(5, &vec![byte(); n]) };
    walk(&tlv(0x30, &e));
}
/// length octets of every kind
fn lengths() {
    let n = arg() as usize;
    walk(&tlv(0x30, &cat(&[&[4], &bytes(n), &[0]])));
}
/// a document with every kind of element, one octet arbitrary
fn sample() -> Vec<u8> {
    cat(&[
        &seq(&[&[1, 1, 255], &[2, 2, 1, 0], &set(&[&bits(3, &[0xa8]), &[5, 0]]), &tlv(0xa2, &cat(&[&oid(&[0x2a, 0x86, 0x48]), &tlv(0x0c, b"\xc3\xa9")]))]),
        &tlv(0x13, b"P"),
        &tlv(0x85, &tlv(0x16, b"I")),
        &tlv(0x17, b"490131235959Z"),
        &[4, 0],
    ])
}
fn flip() {
    let mut b = sample();
    corrupt(&mut b);
    walk(&b);
}
fn cut() {
    let b = sample();
    let n = place(b.len() + 1);
    walk(&b[..n]);
}

// ------------------------------------------------------------------ structures

fn id_name(id: u8) -> &'static str {
    match id {
        1 => "Boolean",
        2 => "Integer",
        3 => "BitString",
        4 => "OctetString",
        5 => "Null",
        6 => "ObjectIdentifier",
        0x0c => "UTF8String",
        0x13 => "PrintableString",
        0x16 => "IA5String",
        0x17 | 0x18 => "UTCTime",
        0x30 => "Sequence",
        0x31 => "Set",
        _ => "ExplicitTag",
    }
}
fn any_kind() -> Vec<u8> {
    match choose(0, 12) {
        0 => vec![1, 1, 0],
        1 => vec![2, 1, byte()],
        2 => bits(0, &[byte()]),
        3 => tlv(4, &bytes(1)),
        4 => vec![5, 0],
        5 => oid(&[0x2a, 3]),
        6 => tlv(0x0c, b"u"),
        7 => tlv(0x13, b"p"),
        8 => tlv(0x16, b"i"),
        9 => tlv(0x17, b"200101000000Z"),
        10 => tlv(0x30, &[]),
        11 => tlv(0x31, &[5, 0]),
        _ => tlv(0xab, &[5, 0]),
    }
}
fn mismatch(want: u8, got: &[u8]) -> Say {
    plain(&["Expected ", id_name(want), ", but type is ", id_name(got[0])].concat())
}
fn rejected(b: &[u8]) -> ASNError {
    match Certificate::parse(b) {
        Err(e) => e,
        Ok(_) => fail("a certificate with a defect accepted"),
    }
}
/// the fields of a certificate that are required, with their types
fn field(p: &mut Parts, k: usize) -> (&mut Vec<u8>, u8) {
    match k {
        0 => (&mut p.serial, 2),
        1 => (&mut p.sig, 0x30),
        2 => (&mut p.issuer, 0x30),
        3 => (&mut p.validity, 0x30),
        4 => (&mut p.subject, 0x30),
        5 => (&mut p.spki, 0x30),
        6 => (&mut p.sig_alg, 0x30),
        _ => (&mut p.sig_value, 3),
    }
}
fn base() -> Parts {
    if arg() % 2 == 0 {
        Parts::small()
    } else {
        Parts::full()
    }
}
/// another type than the one required there
fn wrong_field() {
    let mut p = base();
    let k = place(8);
    let x = any_kind();
    let (f, want) = field(&mut p, k);
    assume(id_name(x[0]) != id_name(want));
    *f = x.clone();
    told(&rejected(&p.build()), &[mismatch(want, &x)]);
}
/// the same inside a field
fn wrong_inside() {
    let mut p = base();
    let x = any_kind();
    let o = oid(&[0x2b, 0x65, 0x70]);
    let t = tlv(0x17, b"200101000000Z");
    let want = match place(7) {
        0 => {
            p.sig = seq(&[&x]);
            6
        }
        1 => {
            p.validity = seq(&[&x, &t]);
            0x17
        }
        2 => {
            p.validity = seq(&[&t, &x]);
            0x17
        }
        3 => {
            p.spki = seq(&[&x, &bits(0, &[1])]);
            0x30
        }
        4 => {
            p.spki = seq(&[&seq(&[&o]), &x]);
            3
        }
        5 => {
            p.version = tlv(0xa0, &x);
            2
        }
        _ => {
            p.spki = seq(&[&seq(&[&x]), &bits(0, &[1])]);
            6
        }
    };
    assume(id_name(x[0]) != id_name(want));
    told(&rejected(&p.build()), &[mismatch(want, &x)]);
}
/// an element more than there may be
fn surplus() {
    let mut p = base();
    let x = any_kind();
    let o = oid(&[0x2b, 0x65, 0x70]);
    let t = tlv(0x17, b"200101000000Z");
    let mut b = vec![];
    match place(7) {
        0 => p.sig = seq(&[&o, &[5, 0], &x]),
        1 => p.validity = seq(&[&t, &t, &x]),
        2 => p.spki = seq(&[&seq(&[&o]), &bits(0, &[1]), &x]),
        3 => p.version = tlv(0xa0, &cat(&[&[2, 1, 1], &x])),
        4 => p.exts = cat(&[&tlv(0xa3, &tlv(0x30, &[])), &x]),
        5 => b = seq(&[&p.tbs(), &p.sig_alg, &p.sig_value, &x]),
        _ => b = cat(&[&p.build(), &x]),
    }
    if b.is_empty() {
        b = p.build();
    }
    told(&rejected(&b), &[plain(&["Expected end of stream but type is ", id_name(x[0])].concat())]);
}
/// the last required element missing
fn missing() {
    let mut p = base();
    let o = oid(&[0x2b, 0x65, 0x70]);
    let mut b = vec![];
    match place(8) {
        0 => p.sig = seq(&[]),
        1 => p.validity = seq(&[&tlv(0x17, b"200101000000Z")]),
        2 => p.spki = seq(&[&seq(&[&o])]),
        3 => p.version = tlv(0xa0, &[]),
        4 => b = seq(&[&p.tbs(), &p.sig_alg]),
        5 => b = seq(&[&p.tbs()]),
        6 => b = seq(&[&seq(&[&p.version, &p.serial, &p.sig, &p.issuer, &p.validity, &p.subject]), &p.sig_alg, &p.sig_value]),
        _ => b = seq(&[]),
    }
    if b.is_empty() {
        b = p.build();
    }
    told(&rejected(&b), &[end()]);
}
fn int32(c: &[u8]) -> i64 {
    refm::int32(c).unwrap_or_else(|| fail("reference"))
}
/// versions there are not
fn version() {
    let n = arg() as usize;
    let c = bytes(n);
    let mut p = Parts::small();
    p.version = tlv(0xa0, &tlv(2, &c));
    let b = p.build();
    if n > 4 {
        told(&rejected(&b), &[count("The integer length exceeds the representation of i32: ", n as u64, "")]);
    } else {
        let v = int32(&c);
        assume(v < 0 || v > 2);
        told(&rejected(&b), &[signed("The enum 'version' has not mapping for value ", v, "")]);
    }
}
/// a malformed element instead of a required one
fn malformed() {
    let mut p = base();
    let k = place(8);
    let x = cat(&[&[KINDS[place(11)]], &bytes(3)]);
    let whole = refm::elem(&x, 0, x.len());
    assume(whole.is_none());
    // nothing behind it: what is malformed may swallow it
    let d = defect(&x).unwrap_or_else(|| fail("reference"));
    *field(&mut p, k).0 = x;
    let mut t = vec![];
    for i in 0..=k.min(5) {
        if i == 0 {
            t.extend(p.version.clone());
        }
        t.extend(field(&mut p, i).0.clone());
    }
    let b = match k {
        0..=5 => seq(&[&tlv(0x30, &t)]),
        6 => seq(&[&p.tbs(), &p.sig_alg]),
        _ => seq(&[&p.tbs(), &p.sig_alg, &p.sig_value]),
    };
    told(&rejected(&b), &d);
}

// ------------------------------------------------------------------ names and extensions

fn bad_name(b: &[u8]) -> Vec<u8> {
    let n = Name { inner: b };
    let r = match n.parse() {
        Err(e) => show(&e),
        Ok(_) => fail("a name with a defect accepted"),
    };
    r
}
struct As(Vec<u8>);
impl core::fmt::Display for As {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        f.write_str(unsafe { core::str::from_utf8_unchecked(&self.0) })
    }
}
fn names() {
    let known = [3u8, 6, 7, 8, 10, 11];
    let which = ["Common Name", "Country Name", "Locality Name", "State or Province Name", "Organization Name", "Organizational Unit Name"];
    let k = place(6);
    let a = ava(known[k], [0x0c, 0x13, 0x16][place(3)], b"v");
    let other = ava(known[(k + 1) % 6], 0x13, b"w");
    let x = any_kind();
    let (b, say) = match place(6) {
        0 => (cat(&[&set(&[&a, &other]), &set(&[&a])]), plain(&["The Object Identifier '", which[k], "' was unexpected."].concat())),
        1 => {
            assume(!matches!(x[0], 0x0c | 0x13 | 0x16));
            let v = seq(&[&oid(&[0x55, 4, known[k]]), &x]);
            (set(&[&other, &v]), mismatch(0x13, &x))
        }
        2 => {
            assume(x[0] != 0x31);
            (cat(&[&set(&[&a]), &x]), mismatch(0x31, &x))
        }
        3 => {
            assume(x[0] != 0x30);
            (set(&[&a, &x]), mismatch(0x30, &x))
        }
        4 => {
            assume(x[0] != 6);
            (set(&[&seq(&[&x, &tlv(0x0c, b"v")])]), mismatch(6, &x))
        }
        _ => match choose(0, 2) {
            0 => (set(&[]), end()),
            1 => (set(&[&seq(&[&oid(&[0x55, 4, 3])])]), end()),
            _ => (set(&[&seq(&[&oid(&[0x2a, 3]), &tlv(0x0c, b"v"), &x])]), plain(&["Expected end of stream but type is ", id_name(x[0])].concat())),
        },
    };
    told(&As(bad_name(&b)), &[say]);
    cover("name");
}
fn bad_ext(b: &[u8]) -> ASNError {
    match Extension::parse(b) {
        Err(e) => e,
        Ok(_) => fail("an extension with a defect accepted"),
    }
}
fn extensions() {
    let x = any_kind();
    let n = byte();
    let (id, c, say): (&[u8], Vec<u8>, Say) = match place(12) {
        0 => {
            assume(x[0] != 4);
            (SKI, x.clone(), mismatch(4, &x))
        }
        1 => {
            assume(x[0] != 3);
            (KU, x.clone(), mismatch(3, &x))
        }
        2 => {
            assume(x[0] != 0x30);
            (SAN, x.clone(), mismatch(0x30, &x))
        }
        3 => {
            assume(x[0] != 0x30);
            (BC, x.clone(), mismatch(0x30, &x))
        }
        4 => {
            assume(x[0] != 0x30);
            (EKU, x.clone(), mismatch(0x30, &x))
        }
        5 => {
            assume(x[0] != 0x0c);
            (ROLE, x.clone(), mismatch(0x0c, &x))
        }
        6 => {
            assume(x[0] != 6);
            (EKU, seq(&[&oid(&cat(&[KP, &[1]])), &x]), mismatch(6, &x))
        }
        7 => {
            // the tag of a kind of name that is not supported
            assume(n < 31 && !matches!(n, 1 | 2 | 6 | 7 | 8));
            (SAN, seq(&[&tlv(0x82, b"a"), &tlv(0x80 | n, b"v")]), count("The explicit tag '", n as u64, "' was unexpected."))
        }
        8 => {
            assume(n < 128 && !matches!(n, 1 | 2 | 3 | 4 | 8 | 9));
            (EKU, seq(&[&oid(&cat(&[KP, &[9]])), &oid(&cat(&[KP, &[n]]))]), count("The Object Identifier '1.3.6.1.5.5.7.3.", n as u64, "' was unexpected."))
        }
        9 => {
            let k = place(4);
            let v = bytes(5 + k);
            (BC, seq(&[&[1, 1, 255], &tlv(2, &v)]), count("The integer length exceeds the representation of i32: ", 5 + k as u64, ""))
        }
        10 => {
            assume(!matches!(x[0], 1 | 2));
            (BC, seq(&[&[1, 1, 255], &[2, 1, n & 127], &x]), plain(&["Expected end of stream but type is ", id_name(x[0])].concat()))
        }
        _ => (SKI, cat(&[&tlv(4, &[n]), &x]), plain(&["Expected end of stream but type is ", id_name(x[0])].concat())),
    };
    told(&bad_ext(&ext_contents(id, choose(0, 1), &c)), &[say]);
    cover("extension");
}
/// the extension itself, and the block
fn envelope() {
    let x = any_kind();
    let (b, say) = match place(6) {
        0 => {
            assume(x[0] != 6);
            (cat(&[&x, &tlv(4, &[1])]), mismatch(6, &x))
        }
        1 => {
            assume(!matches!(x[0], 1 | 4));
            (cat(&[&oid(&[0x2a, 3]), &x]), mismatch(4, &x))
        }
        2 => {
            assume(x[0] != 4);
            (cat(&[&oid(&[0x2a, 3]), &[1, 1, 255], &x]), mismatch(4, &x))
        }
        3 => (cat(&[&oid(&[0x2a, 3]), &tlv(4, &[1]), &x]), plain(&["Expected end of stream but type is ", id_name(x[0])].concat())),
        4 => (cat(&[&oid(&[0x2a, 3]), &[1, 1, 255]]), end()),
        _ => {
            let mut p = Parts::small();
            assume(x[0] != 0x30);
            p.exts = match choose(0, 1) {
                0 => tlv(0xa3, &x),
                _ => Parts::ext_field(&[ext(&[0x2a, 3], 0, &[1]), x.clone()]),
            };
            let b = p.build();
            let c = Certificate::parse(&b).unwrap_or_else(|_| fail("well-formed certificate rejected"));
            if let Some(e) = &c.tbs_certificate.value.extensions {
                match e.parse() {
                    Err(e) => told(&e, &[mismatch(0x30, &x)]),
                    Ok(_) => fail("an extension block with a defect accepted"),
                };
            }
            return;
        }
    };
    told(&bad_ext(&b), &[say]);
}

// ------------------------------------------------------------------ whole documents

type D = Vec<Say>;
fn type_name(k: K) -> &'static str {
    id_name(match k {
        K::Bool => 1,
        K::Int => 2,
        K::Bits => 3,
        K::Octets => 4,
        K::Null => 5,
        K::Oid => 6,
        K::Utf8 => 0x0c,
        K::Printable => 0x13,
        K::Ia5 => 0x16,
        K::Time => 0x17,
        K::Seq => 0x30,
        K::Set => 0x31,
        _ => 0xa0,
    })
}
/// Elements of one container.
struct In<'b>(Cur<'b>);
impl<'b> In<'b> {
    fn new(b: &'b [u8], r: R) -> In<'b> {
        In(Cur::new(b, r))
    }
    fn any(&mut self) -> Result<Ev, D> {
        if self.0.at_end() {
            return Err(vec![end()]);
        }
        match self.0.any() {
            Some(e) => Ok(e),
            None => Err(element(&self.0.b[..self.0.end], self.0.p)),
        }
    }
    fn want(&mut self, k: K) -> Result<Ev, D> {
        let e = self.any()?;
        if e.k == k {
            return Ok(e);
        }
        Err(vec![plain(&["Expected ", type_name(k), ", but type is ", type_name(e.k)].concat())])
    }
    /// one more of a kind, if there is anything more
    fn more(&mut self, k: K) -> Result<Option<Ev>, D> {
        if self.0.at_end() {
            return Ok(None);
        }
        Ok(Some(self.want(k)?))
    }
    fn maybe(&mut self, k: K) -> Result<Option<Ev>, D> {
        if self.0.next_is(k) {
            return Ok(Some(self.want(k)?));
        }
        Ok(None)
    }
    fn tagged(&mut self, tag: u8) -> Result<Option<Ev>, D> {
        if self.0.next_is(K::Ctx) && self.0.b[self.0.p] % 32 == tag {
            return Ok(Some(self.want(K::Ctx)?));
        }
        Ok(None)
    }
    fn done(&mut self) -> Result<(), D> {
        if self.0.at_end() {
            return Ok(());
        }
        let e = self.any()?;
        Err(vec![plain(&["Expected end of stream but type is ", type_name(e.k)].concat())])
    }
}
/// The contents of the only sequence; what is behind it may be looked at before or after.
fn only_seq<'b>(b: &'b [u8], r: R, f: impl FnOnce(&mut In<'b>) -> Result<(), D>) -> Result<(), D> {
    let mut c = In::new(b, r);
    let s = c.want(K::Seq)?;
    let inner = f(&mut In::new(b, s.range()));
    match (inner, c.done()) {
        (Ok(()), x) => x,
        (x, Ok(())) => x,
        (Err(mut x), Err(y)) => {
            x.extend(y);
            Err(x)
        }
    }
}
fn within(b: &[u8], k: K, r: R) -> Result<(), D> {
    if refm::content(b, k, 0, r).is_some() {
        return Ok(());
    }
    let mut out = vec![];
    contents(k, &b[r.0..r.1], &mut out);
    Err(out)
}
fn small_int(b: &[u8], e: &Ev) -> Result<i64, D> {
    let (s, t) = e.range();
    match refm::int32(&b[s..t]) {
        Some(v) => Ok(v),
        None => Err(vec![count("The integer length exceeds the representation of i32: ", e.len as u64, "")]),
    }
}
fn alg_says(b: &[u8], r: R) -> Result<(), D> {
    let mut c = In::new(b, r);
    c.want(K::Oid)?;
    if !c.0.at_end() {
        c.any()?;
    }
    c.done()
}
fn tbs_says(b: &[u8], r: R) -> Result<(), D> {
    let mut c = In::new(b, r);
    if let Some(v) = c.tagged(0)? {
        let mut i = In::new(b, v.range());
        let n = i.want(K::Int)?;
        i.done()?;
        let v = small_int(b, &n)?;
        if v < 0 || v > 2 {
            return Err(vec![signed("The enum 'version' has not mapping for value ", v, "")]);
        }
    }
    c.want(K::Int)?;
    let a = c.want(K::Seq)?;
    alg_says(b, a.range())?;
    c.want(K::Seq)?;
    let v = c.want(K::Seq)?;
    let mut i = In::new(b, v.range());
    i.want(K::Time)?;
    i.want(K::Time)?;
    i.done()?;
    c.want(K::Seq)?;
    let k = c.want(K::Seq)?;
    let mut i = In::new(b, k.range());
    let a = i.want(K::Seq)?;
    alg_says(b, a.range())?;
    i.want(K::Bits)?;
    i.done()?;
    for tag in 1..3 {
        if let Some(u) = c.tagged(tag)? {
            within(b, K::Bits, u.range())?;
        }
    }
    c.tagged(3)?;
    c.done()
}
fn cert_says(b: &[u8]) -> Result<(), D> {
    let mut o = In::new(b, (0, b.len()));
    let s = o.want(K::Seq)?;
    let mut c = In::new(b, s.range());
    let t = c.want(K::Seq)?;
    tbs_says(b, t.range())?;
    let a = c.want(K::Seq)?;
    alg_says(b, a.range())?;
    c.want(K::Bits)?;
    c.done()?;
    o.done()
}
fn name_says(b: &[u8]) -> Result<(), D> {
    let mut seen: Vec<u8> = vec![];
    let mut c = In::new(b, (0, b.len()));
    while let Some(s) = c.more(K::Set)? {
        let mut i = In::new(b, s.range());
        let mut next = Some(i.want(K::Seq)?);
        while let Some(q) = next {
            let mut a = In::new(b, q.range());
            let o = a.want(K::Oid)?;
            let v = a.any()?;
            let known: [(&[u32], &str); 6] = [
                (&[2, 5, 4, 3], "Common Name"),
                (&[2, 5, 4, 6], "Country Name"),
                (&[2, 5, 4, 7], "Locality Name"),
                (&[2, 5, 4, 8], "State or Province Name"),
                (&[2, 5, 4, 10], "Organization Name"),
                (&[2, 5, 4, 11], "Organizational Unit Name"),
            ];
            for (k, (arcs, text)) in known.iter().enumerate() {
                if same_arcs(arcs, &o.arcs) {
                    if !matches!(v.k, K::Utf8 | K::Printable | K::Ia5) {
                        return Err(vec![plain(&["Expected PrintableString, but type is ", type_name(v.k)].concat())]);
                    }
                    if seen.contains(&(k as u8)) {
                        return Err(vec![plain(&["The Object Identifier '", text, "' was unexpected."].concat())]);
                    }
                    seen.push(k as u8);
                    break;
                }
            }
            a.done()?;
            next = i.more(K::Seq)?;
        }
    }
    Ok(())
}
fn body_says(b: &[u8], arcs: &[u32], r: R) -> Result<(), D> {
    let is = |last: u32| same_arcs(&[2, 5, 29, last], arcs);
    let one = |k: K| {
        let mut c = In::new(b, r);
        c.want(k)?;
        c.done()
    };
    if is(14) {
        return one(K::Octets);
    }
    if is(15) {
        return one(K::Bits);
    }
    if is(17) {
        return only_seq(b, r, |c| {
            while let Some(t) = c.more(K::Ctx)? {
                match t.v {
                    1 | 2 | 6 => within(b, K::Ia5, t.range())?,
                    7 => {}
                    8 => within(b, K::Oid, t.range())?,
                    v => return Err(vec![count("The explicit tag '", v, "' was unexpected.")]),
                }
            }
            Ok(())
        });
    }
    if is(19) {
        return only_seq(b, r, |c| {
            c.maybe(K::Bool)?;
            let n = c.maybe(K::Int)?;
            let rest = c.done();
            if let Some(n) = n {
                match (small_int(b, &n), rest) {
                    (Ok(_), x) => x,
                    (Err(x), Ok(())) => Err(x),
                    (Err(mut x), Err(y)) => {
                        x.extend(y);
                        Err(x)
                    }
                }
            } else {
                rest
            }
        });
    }
    if is(37) {
        return only_seq(b, r, |c| {
            while let Some(o) = c.more(K::Oid)? {
                let mut ok = false;
                for k in [1, 2, 3, 4, 8, 9] {
                    if same_arcs(&[1, 3, 6, 1, 5, 5, 7, 3, k], &o.arcs) {
                        ok = true;
                        break;
                    }
                }
                if !ok {
                    return Err(vec![starts("The Object Identifier '")]);
                }
            }
            Ok(())
        });
    }
    if same_arcs(&[1, 3, 6, 1, 4, 1, 50316, 802, 1], arcs) {
        return one(K::Utf8);
    }
    Ok(())
}
fn ext_says(b: &[u8], r: R) -> Result<(), D> {
    let mut c = In::new(b, r);
    let o = c.want(K::Oid)?;
    c.maybe(K::Bool)?;
    let v = c.want(K::Octets)?;
    body_says(b, &o.arcs, v.range())?;
    c.done()
}
fn exts_says(b: &[u8], r: R) -> Result<(), D> {
    only_seq(b, r, |c| {
        while let Some(s) = c.more(K::Seq)? {
            ext_says(b, s.range())?;
        }
        Ok(())
    })
}
fn agrees<T>(got: Result<T, ASNError>, want: Result<(), D>) {
    if let Err(e) = got {
        match want {
            Err(d) => told(&e, &d),
            Ok(()) => fail("an error for a document without a defect"),
        }
    }
}
fn whole_cert(b: &[u8]) {
    let got = Certificate::parse(b);
    if let Ok(c) = &got {
        let t = &c.tbs_certificate.value;
        for n in [&t.issuer, &t.subject] {
            whole_name(n.inner);
        }
        if let (Some(x), Some(r)) = (&t.extensions, refm::cert(b, (0, b.len())).and_then(|r| r.exts)) {
            agrees(x.parse(), exts_says(b, r));
        }
    }
    agrees(got, cert_says(b));
}
fn whole_name(b: &[u8]) {
    agrees(Name { inner: b }.parse(), name_says(b));
}
fn whole_ext(b: &[u8]) {
    agrees(Extension::parse(b), ext_says(b, (0, b.len())));
}
/// every input of `arg / 4` octets for each
fn whole_all() {
    let b = bytes(arg() as usize / 4);
    match arg() % 4 {
        0 => whole_cert(&b),
        1 => whole_cert(&tlv(0x30, &tlv(0x30, &b))),
        2 => whole_name(&b),
        _ => whole_ext(&b),
    }
}
fn whole_flip() {
    let mut b = base().build();
    corrupt(&mut b);
    whole_cert(&b);
}
fn whole_cut() {
    let b = base().build();
    let n = place(b.len() + 1);
    whole_cert(&b[..n]);
}
/// an arbitrary octet more anywhere, lengths around it adjusted
fn whole_edit() {
    let b = base().build();
    whole_cert(&edit(&b, arg() as usize));
}
/// contents of each known extension: `arg / 8` arbitrary octets, alone or within the sequence
fn whole_body() {
    let k = arg() as usize % 8;
    let id = [SKI, KU, SAN, BC, EKU, ROLE][k];
    let c = bytes(arg() as usize / 8);
    let inside = choose(0, 1) == 1;
    whole_ext(&ext_contents(id, 1, &if inside { tlv(0x30, &c) } else { c }));
}
fn whole_ext_flip() {
    let mut b = all_exts()[arg() as usize].clone();
    // contents of the sequence
    b.drain(..2);
    corrupt(&mut b);
    whole_ext(&b);
}
fn whole_name_flip() {
    let mut b = cat(&[&set(&[&ava(3, 0x0c, b"CA"), &ava(10, 0x16, b"Org")]), &set(&[&ava(6, 0x13, b"NL")])]);
    match arg() {
        0 => {
            corrupt(&mut b);
        }
        _ => b = edit(&b, 1),
    }
    whole_name(&b);
}
export! {
    h_c34_all => all, h_c34_kinds => kinds, h_c34_sizes => sizes, h_c34_lengths => lengths, h_c34_flip => flip, h_c34_cut => cut,
    h_c34_wrong_field => wrong_field, h_c34_wrong_inside => wrong_inside, h_c34_surplus => surplus, h_c34_missing => missing,
    h_c34_version => version, h_c34_malformed => malformed, h_c34_names => names, h_c34_extensions => extensions, h_c34_envelope => envelope,
    h_c34_whole_all => whole_all, h_c34_whole_flip => whole_flip, h_c34_whole_cut => whole_cut, h_c34_whole_edit => whole_edit, h_c34_whole_body => whole_body,
    h_c34_whole_ext_flip => whole_ext_flip, h_c34_whole_name_flip => whole_name_flip,
}
