//! Elements, identifiers, instants and errors compared, and types told apart.
use crate::common::*;
use crate::refm::{self, Ev, K};
use crate::sym::*;
use rx509::der::*;
use rx509::x509::*;

/// Whether two elements are equal; nothing when it is a matter of opinion.
fn alike(a: &Ev, x: &[u8], b: &Ev, y: &[u8]) -> Option<bool> {
    if a.k != b.k {
        return Some(false);
    }
    let (p, q) = (&x[a.start..a.start + a.len], &y[b.start..b.start + b.len]);
    match a.k {
        K::Null => Some(true),
        K::Bool | K::Time => Some(a.v == b.v),
        K::Oid => Some(same_arcs(&a.arcs, &b.arcs)),
        K::Ctx => Some((a.v == b.v) & same(p, q)),
        K::Int => {
            if same(p, q) {
                Some(true)
            } else if p.len() == q.len() {
                Some(false)
            } else {
                // the same number with more padding
                let (l, s) = if p.len() > q.len() { (p, q) } else { (q, p) };
                let fill = if s[0] >= 128 { 255 } else { 0 };
                let (pad, rest) = l.split_at(l.len() - s.len());
                if same(rest, s) & same(pad, &vec![fill; pad.len()]) {
                    None
                } else {
                    Some(false)
                }
            }
        }
        K::Bits => {
            if (a.v != b.v) | (p.len() != q.len()) {
                return Some(false);
            }
            if same(p, q) {
                return Some(true);
            }
            // the bits that are not part of it
            let mut p = p.to_vec();
            let mut q = q.to_vec();
            let n = p.len() - 1;
            let mask = (255u64 << concretize(a.v)) as u8;
            p[n] &= mask;
            q[n] &= mask;
            if same(&p, &q) {
                None
            } else {
                Some(false)
            }
        }
        _ => Some(same(p, q)),
    }
}
fn kind(t: &ASNType) -> K {
    match t.get_id() {
        ASNTypeId::Boolean => K::Bool,
        ASNTypeId::Sequence => K::Seq,
        ASNTypeId::Set => K::Set,
        ASNTypeId::Integer => K::Int,
        ASNTypeId::PrintableString => K::Printable,
        ASNTypeId::IA5String => K::Ia5,
        ASNTypeId::UTF8String => K::Utf8,
        ASNTypeId::Null => K::Null,
        ASNTypeId::UTCTime | ASNTypeId::GeneralizedTime => K::Time,
        ASNTypeId::BitString => K::Bits,
        ASNTypeId::OctetString => K::Octets,
        ASNTypeId::ObjectIdentifier => K::Oid,
        ASNTypeId::ExplicitTag => K::Ctx,
    }
}
fn events(b: &[u8]) -> Vec<Ev> {
    let mut v = vec![];
    refm::walk(b, (0, b.len()), &mut v);
    v.retain(|e| e.k != K::Begin && e.k != K::End);
    v
}
struct Inner<'a, 'b> {
    t: &'a ASNType<'b>,
    e: &'a Ev,
    x: &'a [u8],
    y: &'a [u8],
    want: &'a [Ev],
    at: usize,
}
impl<'a, 'b> ParseHandler for Inner<'a, 'b> {
    fn begin_constructed(&mut self) {}
    fn end_constructed(&mut self) {}
    fn on_type(&mut self, u: &ASNType) {
        check(self.at < self.want.len(), "more elements than there are");
        let got = self.t == u;
        check(got != (self.t != u), "elements both equal and different");
        check(got == (u == self.t), "equality depends on the side");
        observe(got as u64);
        if let Some(want) = alike(self.e, self.x, &self.want[self.at], self.y) {
            check(got == want, "equality of elements differs");
            if want {
                cover("equal");
            } else {
                cover("different");
            }
        }
        self.at += 1;
    }
    fn on_error(&mut self, _: &ASNError) {}
}
struct Outer<'a> {
    x: &'a [u8],
    y: &'a [u8],
    ex: Vec<Ev>,
    ey: Vec<Ev>,
    at: usize,
}
impl<'a> ParseHandler for Outer<'a> {
    fn begin_constructed(&mut self) {}
    fn end_constructed(&mut self) {}
    fn on_type(&mut self, t: &ASNType) {
        check(self.at < self.ex.len(), "more elements than there are");
        let e = &self.ex[self.at];
        check(kind(t) == e.k, "an element says it is of another type");
        let mut i = Inner { t, e, x: self.x, y: self.y, want: &self.ey, at: 0 };
        let _ = parse_all(self.y, &mut i);
        check(i.at == self.ey.len(), "less elements than there are");
        self.at += 1;
    }
    fn on_error(&mut self, _: &ASNError) {}
}
/// every element of `x` with every element of `y`
fn compare(x: &[u8], y: &[u8]) {
    let mut o = Outer { x, y, ex: events(x), ey: events(y), at: 0 };
    let _ = parse_all(x, &mut o);
    check(o.at == o.ex.len(), "less elements than there are");
}
const IDS: [u8; 15] = [1, 2, 3, 4, 5, 6, 0x0c, 0x13, 0x16, 0x17, 0x18, 0x30, 0x31, 0xa3, 0x80];
/// two elements of any types, `arg / 8` and `arg % 8` arbitrary octets
fn cross() {
    let one = |n: u64| {
        let k = IDS[choose(0, 14) as usize];
        tlv(k, &bytes(n as usize))
    };
    let (a, b) = (one(arg() / 8), one(arg() % 8));
    compare(&a, &b);
}
/// two elements of the same type, `arg / 16` arbitrary octets each
fn pair() {
    let (k, n) = (IDS[arg() as usize % 16], arg() as usize / 16);
    compare(&tlv(k, &bytes(n)), &tlv(k, &bytes(n)));
}
/// the same contents, any two identifier octets
fn tags() {
    let c: &[u8] = match arg() {
        0 => &[],
        1 => &[0],
        2 => &[0, 0x35],
        _ => b"\x05\x00",
    };
    let (mut a, mut b) = (tlv(0, c), tlv(0, c));
    a[0] = byte();
    b[0] = byte();
    compare(&a, &b);
}
/// contents of `arg / 16` octets that differ in one octet, at either end or in between
fn long() {
    let (k, n) = (IDS[arg() as usize % 16], arg() as usize / 16);
    let mut c: Vec<u8> = match k {
        3 => vec![0; n],
        0x30 | 0x31 | 0xa3 | 0x80 => tlv(4, &vec![b'4'; n]),
        _ => vec![b'4'; n],
    };
    let a = tlv(k, &c);
    let last = c.len() - 1;
    let at = [0, 1, 7, 8, 15, 16, n / 2, last - 1, last][choose(0, 8) as usize];
    assume(at < c.len());
    c[at] = byte();
    compare(&a, &tlv(k, &c));
}
/// one the beginning of the other
fn prefix() {
    let k = IDS[arg() as usize % 16];
    let n = arg() as usize / 16;
    let x = byte();
    let part = |n: usize| {
        let mut c = vec![if k == 3 { 0 } else { 0x35 }; n + 1];
        if n > 0 {
            c[1] = x & 0x7f;
        }
        match k {
            0x30 | 0x31 | 0xa3 | 0x80 => tlv(k, &tlv(4, &c)),
            _ => tlv(k, &c),
        }
    };
    compare(&part(n), &part(place(n + 66)));
}
/// two times of either form, two digits of one arbitrary
fn times() {
    let k = arg() as usize;
    let mut t = *b"20240229235958Z";
    let form = |t: &[u8]| match choose(0, 1) {
        0 => tlv(0x18, t),
        _ => tlv(0x17, &t[2..]),
    };
    let a = form(&t);
    for x in t[2 * k..2 * k + 2].iter_mut() {
        *x = b'0' + (byte() & 15);
        assume(*x <= b'9');
    }
    let b = form(&t);
    match choose(0, 1) {
        0 => compare(&a, &b),
        _ => compare(&b, &a),
    }
}
/// a document with every type of element, and the same with one octet arbitrary
fn flip() {
    let a = cat(&[
        &seq(&[&[1, 1, 255], &[2, 2, 1, 0], &set(&[&bits(3, &[0xa8]), &[5, 0]]), &tlv(0xa2, &oid(&[0x2a, 0x86, 0x48]))]),
        &tlv(0x13, b"P"),
        &tlv(0x85, &tlv(0x16, b"P")),
        &tlv(0x17, b"490131235959Z"),
        &tlv(0x0c, b"P"),
        &[4, 1, 0x50],
    ]);
    let mut b = a.clone();
    corrupt(&mut b);
    compare(&a, &b);
}
/// what one accessor of each type makes of an element of each
fn values() {
    let n = arg() as usize;
    let c = bytes(n);
    let text = core::str::from_utf8(&c);
    let mut secs = 0u64;
    for v in bytes(8) {
        secs = secs << 8 | v as u64;
    }
    let k = choose(0, 12);
    let truth = choose(0, 1) == 1;
    if (6..=8).contains(&k) && text.is_err() {
        return;
    }
    let text = text.unwrap_or("");
    let unused = (byte() & 7) * (n > 0) as u8;
    let make = || match k {
        0 => Boolean::asn(truth),
        1 => Integer::asn(ASNInteger::new(&c)),
        2 => BitString::asn(ASNBitString::new(unused, &c)),
        3 => OctetString::asn(&c),
        4 => ASNType::Null,
        5 => ObjectIdentifier::asn(ASNObjectIdentifier::new(c.iter().map(|x| *x as u32).collect())),
        6 => UTF8String::asn(text),
        7 => PrintableString::asn(text),
        8 => IA5String::asn(text),
        9 => UtcTime::asn(secs),
        10 => Sequence::asn(&c),
        11 => Set::asn(&c),
        _ => ExplicitTag::asn(ASNExplicitTag::new(n as u8, &c)),
    };
    const KS: [K; 13] = [K::Bool, K::Int, K::Bits, K::Octets, K::Null, K::Oid, K::Utf8, K::Printable, K::Ia5, K::Time, K::Seq, K::Set, K::Ctx];
    check(kind(&make()) == KS[k as usize], "a value made as one type says it is another");
    check(make() == make(), "a value differs from itself");
    let only = |got: bool, at: u64| check(got == (k == at), "an accessor takes another type, or not its own");
    let at = |s: &[u8]| check(s.len() == c.len() && same(s, &c) && (s.is_empty() || s.as_ptr() == c.as_ptr()), "an accessor gives something else");
    let b = Boolean::get_value(make());
    only(b.is_some(), 0);
    if let Some(b) = b {
        check(b == truth, "an accessor gives something else");
    }
    let i = Integer::get_value(make());
    only(i.is_some(), 1);
    if let Some(i) = i {
        at(i.bytes);
    }
    let b = BitString::get_value(make());
    only(b.is_some(), 2);
    if let Some(b) = b {
        check(b == ASNBitString::new(unused, &c), "an accessor gives something else");
        check(b.size() == 8 * c.len() - unused as usize, "an accessor gives something else");
    }
    let o = OctetString::get_value(make());
    only(o.is_some(), 3);
    if let Some(o) = o {
        at(o);
    }
    let o = ObjectIdentifier::get_value(make());
    only(o.is_some(), 5);
    if let Some(o) = o {
        check(o.values().len() == n, "an accessor gives something else");
        for (x, y) in o.values().iter().zip(&c) {
            check(*x == *y as u32, "an accessor gives something else");
        }
    }
    let t = UTF8String::get_value(make());
    only(t.is_some(), 6);
    if let Some(t) = t {
        at(t.as_bytes());
    }
    let t = PrintableString::get_value(make());
    only(t.is_some(), 7);
    if let Some(t) = t {
        at(t.as_bytes());
    }
    let t = IA5String::get_value(make());
    only(t.is_some(), 8);
    if let Some(t) = t {
        at(t.as_bytes());
    }
    let t = UtcTime::get_value(make());
    only(t.is_some(), 9);
    if let Some(t) = t {
        check(t.value == secs, "an accessor gives something else");
    }
    let s = Sequence::get_value(make());
    only(s.is_some(), 10);
    if let Some(s) = s {
        at(s);
    }
    let s = Set::get_value(make());
    only(s.is_some(), 11);
    if let Some(s) = s {
        at(s);
    }
    let t = ExplicitTag::get_value(make());
    only(t.is_some(), 12);
    if let Some(t) = t {
        check(t.value == n as u8, "an accessor gives something else");
        at(t.contents);
    }
    check(Boolean::get_id() == ASNTypeId::Boolean && Integer::get_id() == ASNTypeId::Integer, "a type's id is another's");
    check(BitString::get_id() == ASNTypeId::BitString && OctetString::get_id() == ASNTypeId::OctetString, "a type's id is another's");
    check(ObjectIdentifier::get_id() == ASNTypeId::ObjectIdentifier && UTF8String::get_id() == ASNTypeId::UTF8String, "a type's id is another's");
    check(PrintableString::get_id() == ASNTypeId::PrintableString && IA5String::get_id() == ASNTypeId::IA5String, "a type's id is another's");
    check(Sequence::get_id() == ASNTypeId::Sequence && Set::get_id() == ASNTypeId::Set, "a type's id is another's");
    check(ExplicitTag::get_id() == ASNTypeId::ExplicitTag && UtcTime::get_id() == ASNTypeId::UTCTime, "a type's id is another's");
    cover("values");
}
/// any two instants
fn instants() {
    let any = || {
        let b = bytes(8);
        let mut x = 0u64;
        for v in b {
            x = x << 8 | v as u64;
        }
        x
    };
    let (x, y) = (any(), any());
    let (a, b) = (UtcTime::from_seconds_since_epoch(x), UtcTime::from_seconds_since_epoch(y));
    check(a.value == x && b.value == y, "an instant made is another");
    check((a == b) == (x == y), "equality of instants differs");
    check((a < b) == (x < y), "order of instants differs");
    check((a <= b) == (x <= y), "order of instants differs");
    check((a > b) == (x > y), "order of instants differs");
    check((a >= b) == (x >= y), "order of instants differs");
    check(a.partial_cmp(&b) == Some(x.cmp(&y)), "order of instants differs");
    observe((a < b) as u64);
    cover("instants");
}
/// any two identifier octets
fn octets() {
    let (a, b) = (byte(), byte());
    check((Identifier::from(a) == Identifier::from(b)) == (a == b), "equality of identifier octets differs");
    observe((a == b) as u64);
    cover("octets");
}
/// identifiers of `arg / 8` and `arg % 8` arbitrary arcs
fn arcs() {
    let any = |n: u64| -> Vec<u32> {
        (0..n)
            .map(|_| {
                let b = bytes(4);
                u32::from_le_bytes([b[0], b[1], b[2], b[3]])
            })
            .collect()
    };
    let (x, y) = (any(arg() / 8), any(arg() % 8));
    let (a, b) = (ASNObjectIdentifier::new(x.clone()), ASNObjectIdentifier::new(y.clone()));
    check(same_arcs(a.values(), &x), "an identifier made has other arcs");
    check(same_arcs(a.clone().values(), &x), "a copy of an identifier has other arcs");
    check((a == b) == same_arcs(&x, &y), "equality of identifiers differs");
    check(a.clone() == a, "a copy of an identifier differs from it");
    cover("arcs");
}
/// errors of two parses, `arg` arbitrary octets in all: equal ones read alike
fn errors() {
    let n = arg() as usize;
    let a = bytes(n / 8);
    let b = bytes(n % 8);
    if let (Err(x), Err(y)) = (Certificate::parse(&a), Certificate::parse(&b)) {
        if x == y {
            check(show(&x) == show(&y), "equal errors read differently");
        }
        check(x == x, "an error differs from itself");
        cover("errors");
    }
}
fn show(e: &ASNError) -> String {
    format!("{}", e)
}
export! {
    h_c36_cross => cross, h_c36_pair => pair, h_c36_tags => tags, h_c36_long => long, h_c36_prefix => prefix, h_c36_times => times, h_c36_flip => flip,
    h_c36_values => values, h_c36_instants => instants, h_c36_octets => octets, h_c36_arcs => arcs, h_c36_errors => errors
}
