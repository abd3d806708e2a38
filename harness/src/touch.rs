//! Everything a caller can do with what comes back.
use crate::common::*;
use crate::sym::*;
use core::fmt::Write;
use rx509::der::*;
use rx509::x509::ext::*;
use rx509::x509::printer::*;
use rx509::x509::*;

pub fn shown(x: &dyn core::fmt::Display) {
    let mut s = Sink(0);
    check(write!(s, "{}", x).is_ok(), "formatting failed");
    observe(s.0 as u64);
}
pub fn debugged(x: &dyn core::fmt::Debug) {
    let mut s = Sink(0);
    check(write!(s, "{:?}", x).is_ok(), "formatting failed");
    observe(s.0 as u64);
}
pub fn printed(x: &dyn Printable) {
    let mut p = CountPrinter::default();
    x.print(&mut p);
    observe(p.bytes as u64);
}
pub fn bit_string(x: &ASNBitString) {
    observe(x.size() as u64);
    let mut n = 0;
    for b in x.iter() {
        n += 1 + b as u64 % 1;
    }
    observe(n);
    if let Some(o) = x.octets() {
        observe(o.len() as u64);
    }
}
/// `D`: containers are written out with their contents, too.
pub fn element<const D: bool>(t: &ASNType) {
    shown(t);
    // core's own escaping of text is left out (it looks every character up in Unicode tables)
    let text = matches!(t, ASNType::UTF8String(_) | ASNType::PrintableString(_) | ASNType::IA5String(_));
    let container = matches!(t, ASNType::Sequence(_) | ASNType::Set(_) | ASNType::ExplicitTag(_));
    if !text && (D || !container) {
        debugged(t);
    }
    observe(t.get_id() as u64);
    match t {
        ASNType::BitString(x) => bit_string(&x.value),
        ASNType::Integer(x) => {
            shown(&x.value);
            observe(x.value.as_i32().is_some() as u64);
        }
        ASNType::ObjectIdentifier(x) => {
            shown(&x.value);
            observe(x.value.values().len() as u64);
            observe(ExtendedKeyUsagePurpose::try_from_id(&x.value).is_some() as u64);
        }
        _ => {}
    }
    cover("element");
}
pub fn error(e: &ASNError) {
    shown(e);
    debugged(e);
    cover("error");
}
pub struct Touch<const D: bool>;
impl<const D: bool> ParseHandler for Touch<D> {
    fn begin_constructed(&mut self) {}
    fn end_constructed(&mut self) {}
    fn on_type(&mut self, t: &ASNType) {
        element::<D>(t)
    }
    fn on_error(&mut self, e: &ASNError) {
        error(e)
    }
}
pub fn walk<const D: bool>(b: &[u8]) {
    if let Err(e) = parse_all(b, &mut Touch::<D>) {
        error(&e);
    }
}
pub fn algorithm(a: &AlgorithmIdentifier) {
    shown(&a.algorithm);
    debugged(&a.algorithm);
    if let Some(p) = &a.parameters {
        element::<true>(p);
    }
}
pub fn name(n: &Name) {
    match n.parse() {
        Ok(r) => {
            observe(r.common_name.map_or(0, |x| x.len()) as u64);
            printed(&r);
            cover("name");
        }
        Err(e) => error(&e),
    }
    printed(n);
}
pub fn extension(e: &Extension) {
    printed(e);
    if !matches!(e.content, SpecificExtension::ModbusRole(_) | SpecificExtension::SubjectAlternativeName(_)) {
        debugged(e);
    }
    observe(e.content.name().len() as u64);
    cover("extension");
}
pub fn certificate(b: &[u8]) {
    let c = match Certificate::parse(b) {
        Ok(c) => c,
        Err(e) => return error(&e),
    };
    let t = &c.tbs_certificate.value;
    observe(c.tbs_certificate.bytes.len() as u64);
    shown(&t.serial_number);
    observe(t.serial_number.as_i32().is_some() as u64);
    algorithm(&t.signature);
    algorithm(&c.signature_algorithm);
    algorithm(&t.subject_public_key_info.algorithm);
    bit_string(&t.subject_public_key_info.subject_public_key);
    bit_string(&c.signature_value);
    name(&t.issuer);
    name(&t.subject);
    for u in [&t.issuer_unique_id, &t.subject_unique_id] {
        if let Some(x) = u {
            bit_string(x);
        }
    }
    let mut now = [0u8; 8];
    fill(&mut now);
    observe(t.validity.is_valid(UtcTime::from_seconds_since_epoch(u64::from_be_bytes(now))) as u64);
    if let Some(x) = &t.extensions {
        match x.parse() {
            Ok(v) => {
                for e in &v {
                    extension(e);
                }
            }
            Err(e) => error(&e),
        }
    }
    printed(&c);
    cover("certificate");
}
pub fn one(b: &[u8]) {
    match Extension::parse(b) {
        Ok(e) => extension(&e),
        Err(e) => error(&e),
    }
}


/// Kinds of input that grow: `n` is about the number of octets.
pub const SHAPES: usize = 16;
/// One of them, and what to do with it.
pub fn shape<const D: bool>(k: usize, n: usize) -> (Vec<u8>, fn(&[u8])) {
    let few = bytes(4);
    let text = |n: usize| {
        let mut c = vec![b'x'; n];
        c[0] = few[0];
        c[n - 1] = few[1];
        c
    };
    let mut c: Vec<u8> = vec![];
    match k {
        0 => {
            // containers of three arbitrary kinds in turn, nested
            for x in &few[..3] {
                assume(*x == 0x30 || *x == 0x31 || (*x >= 0xa0 && *x <= 0xbe));
            }
            let mut r = vec![0, 5];
            for j in 0..n / 4 {
                let mut h = vec![];
                put_len(r.len(), &mut h);
                r.extend(h.iter().rev());
                r.push(few[j % 3]);
            }
            r.reverse();
            (r, walk::<D>)
        }
        1 => {
            for j in 0..n / 3 {
                c.extend([2, 1, few[j % 2]]);
            }
            (c, walk::<D>)
        }
        2 => {
            c = vec![1; n];
            c[0] = few[0] & 127;
            c[n - 1] = few[1];
            (tlv(6, &c), walk::<D>)
        }
        3 => (tlv(4, &text(n)), walk::<D>),
        4 => {
            let mut b = bits(few[2] & 7, &text(n));
            b.extend([5, 0]);
            (b, walk::<D>)
        }
        5 => (tlv(2, &text(n)), walk::<D>),
        6 => (tlv(0x0c, &text(n)), walk::<D>),
        7 => {
            for j in 0..n / 11 {
                c.extend(set(&[&ava(64 + (j % 32) as u8, 0x0c, &[few[j % 4] & 127])]));
            }
            (c, |b| name(&Name { inner: b }))
        }
        8 => {
            for j in 0..n / 9 {
                c.extend(seq(&[&oid(&[0x55, 4, 64 + (j % 32) as u8]), &tlv(4, &[few[j % 4]])]));
            }
            (set(&[&c]), |b| name(&Name { inner: b }))
        }
        9 => {
            let mut l = vec![];
            for j in 0..n / 12 {
                l.push(ext(&[0x2a, (j % 100) as u8], j as u64 & 1, &[few[j % 2]]));
            }
            let mut p = Parts::small();
            p.exts = Parts::ext_field(&l);
            (p.build(), certificate)
        }
        10 => {
            for j in 0..n / 4 {
                c.extend(tlv([0x81, 0x82, 0x86, 0x87][j % 4], &[few[j % 4] & 127, 0x61]));
            }
            (ext_contents(SAN, 0, &tlv(0x30, &c)), one)
        }
        11 => {
            for j in 0..n / 10 {
                c.extend(oid(&cat(&[KP, &[1 + (j % 4) as u8]])));
            }
            (ext_contents(EKU, 0, &tlv(0x30, &c)), one)
        }
        12 => {
            // empty containers side by side, the last two octets arbitrary
            for _ in 0..n / 2 {
                c.extend([0x30, 0]);
            }
            c.extend(&few[..2]);
            (c, walk::<D>)
        }
        13 => (ext_contents(KU, 0, &bits(few[2] & 7, &text(n))), one),
        14 => {
            // halves of halves, of different types
            fn half(n: usize, few: &[u8]) -> Vec<u8> {
                if n < 8 {
                    return cat(&[&[2, 1, few[0]], &[1, 1, 255]]);
                }
                let h = half(n / 2 - 3, few);
                cat(&[&tlv(0x31, &h), &tlv(0xa0 | (few[1] & 15), &h)])
            }
            (tlv(0x30, &half(n, &few)), walk::<D>)
        }
        _ => {
            let mut p = Parts::full();
            let t = text(n / 6);
            p.serial = tlv(2, &t);
            p.issuer = seq(&[&set(&[&ava(3, 0x0c, &vec![b'i'; n / 6])])]);
            p.sig_value = bits(0, &t);
            p.spki = seq(&[&seq(&[&oid(&[0x2b, 0x65, 0x70])]), &bits(0, &t)]);
            p.exts = Parts::ext_field(&[ext(&[0x2a, 3], 1, &t), ext(SKI, 0, &tlv(4, &t))]);
            (p.build(), certificate)
        }
    }
}
struct Quiet(u64);
impl ParseHandler for Quiet {
    fn begin_constructed(&mut self) {}
    fn end_constructed(&mut self) {}
    fn on_type(&mut self, t: &ASNType) {
        self.0 += 1 + t.get_id() as u64;
    }
    fn on_error(&mut self, _: &ASNError) {}
}
/// Kind `k` parsed and nothing else; whether it was accepted.
pub fn bare(k: usize, b: &[u8]) -> bool {
    match k {
        0..=6 | 12 | 14 => {
            let mut q = Quiet(0);
            let ok = parse_all(b, &mut q).is_ok();
            observe(q.0);
            ok
        }
        7 | 8 => Name { inner: b }.parse().is_ok(),
        10 | 11 | 13 => Extension::parse(b).is_ok(),
        _ => match Certificate::parse(b) {
            Err(_) => false,
            Ok(c) => {
                let t = &c.tbs_certificate.value;
                let names = t.issuer.parse().is_ok() & t.subject.parse().is_ok();
                names & t.extensions.as_ref().map_or(true, |x| x.parse().is_ok())
            }
        },
    }
}
