//! Recorders, comparisons against the reference model, and encoders for test inputs.
use crate::refm::{self, Ev, Ext, Extn, Gn, K, R};
use crate::sym::*;
use rx509::der::*;
use rx509::x509::ext::*;
use rx509::x509::printer::*;
use rx509::x509::*;

macro_rules! export {
    ($($name:ident => $f:path),* $(,)?) => {
        $(#[no_mangle] pub extern "C" fn $name() { $f() })*
        pub const LIST: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name as extern "C" fn())),*];
    };
}
pub(crate) use export;

/// `s` is exactly the range `r` of `base`, in place (where an empty slice lies does not matter).
pub fn placed(s: &[u8], base: &[u8], r: R) -> bool {
    if s.len() != r.1 - r.0 {
        return false;
    }
    s.is_empty() || s.as_ptr() as usize == base.as_ptr() as usize + r.0
}

pub fn same_arcs(a: &[u32], b: &[u32]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u32;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

pub fn same_bits(a: &ASNBitString, base: &[u8], e: &Ev) -> bool {
    // size() pins down the number of unused bits; contents through octets() or bit by bit
    if a.size() != e.len * 8 - e.v as usize {
        return false;
    }
    match a.octets() {
        Some(o) => (e.v == 0) & placed(o, base, e.range()),
        None => {
            let mut ok = e.v != 0;
            let mut n = 0;
            for bit in a.iter() {
                let w = base[e.start + n / 8] >> (7 - n % 8) & 1;
                ok &= bit as u8 == w;
                n += 1;
            }
            ok & (n == e.len * 8 - e.v as usize)
        }
    }
}

/// Value of a parsed element equals the reference element.
pub fn same_elem(t: &ASNType, base: &[u8], e: &Ev) -> bool {
    match t {
        ASNType::Boolean(x) => e.k == K::Bool && x.value as u64 == e.v,
        ASNType::Integer(x) => e.k == K::Int && placed(x.value.bytes, base, e.range()),
        ASNType::BitString(x) => e.k == K::Bits && same_bits(&x.value, base, e),
        ASNType::OctetString(x) => e.k == K::Octets && placed(x.value, base, e.range()),
        ASNType::Null => e.k == K::Null,
        ASNType::ObjectIdentifier(x) => e.k == K::Oid && same_arcs(x.value.values(), &e.arcs),
        ASNType::UTF8String(x) => e.k == K::Utf8 && placed(x.value.as_bytes(), base, e.range()),
        ASNType::PrintableString(x) => e.k == K::Printable && placed(x.value.as_bytes(), base, e.range()),
        ASNType::IA5String(x) => e.k == K::Ia5 && placed(x.value.as_bytes(), base, e.range()),
        ASNType::UTCTime(x) | ASNType::GeneralizedTime(x) => e.k == K::Time && x.value == e.v,
        ASNType::Sequence(x) => e.k == K::Seq && placed(x.value, base, e.range()),
        ASNType::Set(x) => e.k == K::Set && placed(x.value, base, e.range()),
        ASNType::ExplicitTag(x) => {
            e.k == K::Ctx && x.value.value as u64 == e.v && placed(x.value.contents, base, e.range())
        }
    }
}

pub fn code(t: &ASNType) -> u64 {
    match t {
        ASNType::Boolean(x) => 1 + 100 * x.value as u64,
        ASNType::Integer(_) => 2,
        ASNType::BitString(_) => 3,
        ASNType::OctetString(_) => 4,
        ASNType::Null => 5,
        ASNType::ObjectIdentifier(_) => 6,
        ASNType::UTF8String(_) => 7,
        ASNType::PrintableString(_) => 8,
        ASNType::IA5String(_) => 9,
        ASNType::UTCTime(_) | ASNType::GeneralizedTime(_) => 10,
        ASNType::Sequence(_) => 11,
        ASNType::Set(_) => 12,
        ASNType::ExplicitTag(x) => 13 + 100 * x.value.value as u64,
    }
}

/// Compares a walk with the reference event by event, as the callbacks come in.
pub struct Follow<'b> {
    pub base: &'b [u8],
    pub want: Vec<Ev>,
    pub next: usize,
    pub errors: usize,
    pub types: usize,
    /// further checks on each element
    pub extra: fn(&ASNType, &[u8], &Ev),
    /// a bitwise copy of the error reported
    pub reported: Option<core::mem::ManuallyDrop<ASNError>>,
}
pub fn nothing(_: &ASNType, _: &[u8], _: &Ev) {}
impl<'b> Follow<'b> {
    fn bracket(&mut self, k: K) {
        check(self.errors == 0, "callback after the error callback");
        check(
            self.next < self.want.len() && self.want[self.next].k == k,
            "begin/end callback not where the document has it",
        );
        self.next += 1;
        observe(if k == K::Begin { 50 } else { 51 });
    }
}
impl<'b> ParseHandler for Follow<'b> {
    fn begin_constructed(&mut self) {
        self.bracket(K::Begin)
    }
    fn end_constructed(&mut self) {
        self.bracket(K::End)
    }
    fn on_type(&mut self, t: &ASNType) {
        check(self.errors == 0, "callback after the error callback");
        check(self.next < self.want.len(), "element delivered that the input does not hold");
        let e = &self.want[self.next];
        check(same_elem(t, self.base, e), "element delivered differs from the one encoded");
        (self.extra)(t, self.base, e);
        self.next += 1;
        self.types += 1;
        observe(code(t));
    }
    fn on_error(&mut self, e: &ASNError) {
        check(self.errors == 0, "more than one error callback");
        self.errors += 1;
        self.reported = Some(core::mem::ManuallyDrop::new(unsafe { core::ptr::read(e) }));
        observe(60);
    }
}

/// Walk `b` and compare everything with the reference walk.  Returns whether it was accepted.
pub fn compare_walk(b: &[u8]) -> bool {
    compare_walk_with(b, nothing)
}
pub fn compare_walk_with(b: &[u8], extra: fn(&ASNType, &[u8], &Ev)) -> bool {
    let mut want = vec![];
    let good = refm::walk(b, (0, b.len()), &mut want);
    let mut f = Follow { base: b, want, next: 0, errors: 0, types: 0, extra, reported: None };
    let r = parse_all(b, &mut f);
    observe(r.is_ok() as u64);
    if good {
        check(r.is_ok(), "well-formed input rejected");
        check(f.errors == 0, "error callback in a successful walk");
    } else {
        check(r.is_err(), "malformed input accepted");
        check(f.errors == 1, "failed walk without an error callback");
        if let (Some(a), Err(e)) = (&f.reported, &r) {
            check(**a == *e, "error reported differs from the error returned");
        }
    }
    check(f.next == f.want.len(), "elements before the end (or the defect) not delivered");
    good
}

// ------------------------------------------------------------------ X.509 comparisons

pub fn check_alg(a: &AlgorithmIdentifier, base: &[u8], r: &refm::Alg, what: &'static str) {
    let ok = same_arcs(a.algorithm.values(), &r.oid)
        && match (&a.parameters, &r.params) {
            (None, None) => true,
            (Some(p), Some(e)) => same_elem(p, base, e),
            _ => false,
        };
    check(ok, what);
}

pub fn check_cert(c: &Certificate, base: &[u8], r: &refm::Cert) {
    check(placed(c.tbs_certificate.bytes, base, r.tbs), "tbs bytes differ from the encoded region");
    let t = &c.tbs_certificate.value;
    let v = match t.version {
        Version::V1 => 1,
        Version::V2 => 2,
        Version::V3 => 3,
    };
    check(v == r.version, "version differs");
    check(placed(t.serial_number.bytes, base, r.serial), "serial number differs");
    check_alg(&t.signature, base, &r.sig, "inner signature algorithm differs");
    check(placed(t.issuer.inner, base, r.issuer), "issuer differs");
    check(t.validity.not_before.value == r.not_before, "not-before differs");
    check(t.validity.not_after.value == r.not_after, "not-after differs");
    check(placed(t.subject.inner, base, r.subject), "subject differs");
    check_alg(&t.subject_public_key_info.algorithm, base, &r.key_alg, "public key algorithm differs");
    check(
        same_bits(&t.subject_public_key_info.subject_public_key, base, &r.key),
        "public key bits differ",
    );
    check_uid(&t.issuer_unique_id, base, &r.issuer_uid, "issuer unique id differs");
    check_uid(&t.subject_unique_id, base, &r.subject_uid, "subject unique id differs");
    check(t.extensions.is_some() == r.exts.is_some(), "presence of the extensions differs");
    check_alg(&c.signature_algorithm, base, &r.sig_alg, "outer signature algorithm differs");
    check(same_bits(&c.signature_value, base, &r.sig_value), "signature bits differ");
}
pub fn check_uid(a: &Option<ASNBitString>, base: &[u8], r: &Option<Ev>, what: &'static str) {
    let ok = match (a, r) {
        (None, None) => true,
        (Some(x), Some(e)) => same_bits(x, base, e),
        _ => false,
    };
    check(ok, what);
}

/// Parse as a certificate and compare with the reference: acceptance, fields and extensions.
pub fn compare_cert(b: &[u8]) -> bool {
    let got = Certificate::parse(b);
    let want = refm::cert(b, (0, b.len()));
    observe(got.is_ok() as u64);
    match (&got, &want) {
        (Ok(c), Some(r)) => {
            check_cert(c, b, r);
            observe(c.tbs_certificate.bytes.len() as u64);
            true
        }
        (Err(_), None) => false,
        (Ok(_), None) => fail("input that is not exactly one certificate accepted"),
        (Err(_), Some(_)) => fail("well-formed certificate rejected"),
    }
}

pub fn check_ext(e: &Extension, base: &[u8], r: &Extn) {
    check(same_arcs(e.extn_id.values(), &r.oid), "extension id differs");
    check(e.critical == r.critical, "criticality differs");
    observe(e.critical as u64);
    match (&e.content, &r.body) {
        (SpecificExtension::SubjectKeyIdentifier(x), Ext::Ski(w)) => {
            observe(14);
            check(placed(x.key_identifier, base, *w), "key identifier differs");
        }
        (SpecificExtension::KeyUsage(x), Ext::Ku(w)) => {
            observe(15);
            observe(ku_flags(x) as u64);
            check(ku_flags(x) == *w, "key usage flags differ from the bits");
        }
        (SpecificExtension::SubjectAlternativeName(x), Ext::San(w)) => {
            observe(17);
            check(x.names.len() == w.len(), "number of alternative names differs");
            for (n, g) in x.names.iter().zip(w) {
                let ok = match (n, g) {
                    (GeneralName::Rfc822Name(s), Gn::Text(1, r)) => placed(s.as_bytes(), base, *r),
                    (GeneralName::DnsName(s), Gn::Text(2, r)) => placed(s.as_bytes(), base, *r),
                    (GeneralName::UniformResourceIdentifier(s), Gn::Text(6, r)) => placed(s.as_bytes(), base, *r),
                    (GeneralName::IpAddress(s), Gn::Ip(r)) => placed(s, base, *r),
                    (GeneralName::RegisteredId(o), Gn::Id(a)) => same_arcs(o.values(), a),
                    _ => false,
                };
                check(ok, "alternative name differs in kind or value");
            }
        }
        (SpecificExtension::BasicConstraints(x), Ext::Bc(ca, path)) => {
            observe(19);
            observe(x.ca as u64);
            check(x.ca == *ca, "CA flag differs");
            let ok = match (x.path_length_constraint, path) {
                (None, None) => true,
                (Some(a), Some(b)) => a as i64 == *b,
                _ => false,
            };
            check(ok, "path length differs");
        }
        (SpecificExtension::ExtendedKeyUsage(x), Ext::Eku(w)) => {
            observe(37);
            check(x.ext_key_usages.len() == w.len(), "number of extended key usages differs");
            for (p, q) in x.ext_key_usages.iter().zip(w) {
                check(purpose(p) == *q, "extended key usage purpose differs");
            }
        }
        (SpecificExtension::ModbusRole(x), Ext::Role(w)) => {
            observe(802);
            check(placed(x.role.as_bytes(), base, *w), "Modbus role differs");
        }
        (SpecificExtension::Unknown(x), Ext::Unknown(w)) => {
            observe(1);
            check(placed(x, base, *w), "raw contents of an unknown extension differ");
        }
        _ => fail("extension decoded as another kind than its id says"),
    }
}
pub fn purpose(p: &ExtendedKeyUsagePurpose) -> u8 {
    match p {
        ExtendedKeyUsagePurpose::ServerAuth => 0,
        ExtendedKeyUsagePurpose::ClientAuth => 1,
        ExtendedKeyUsagePurpose::CodeSigning => 2,
        ExtendedKeyUsagePurpose::EmailProtection => 3,
        ExtendedKeyUsagePurpose::TimeStamping => 4,
        ExtendedKeyUsagePurpose::OCSPSigning => 5,
    }
}
pub fn ku_flags(x: &KeyUsage) -> u32 {
    x.digital_signature as u32
        | (x.content_commitment as u32) << 1
        | (x.key_encipherment as u32) << 2
        | (x.data_encipherment as u32) << 3
        | (x.key_agreement as u32) << 4
        | (x.key_cert_sign as u32) << 5
        | (x.crl_sign as u32) << 6
        | (x.encipher_only as u32) << 7
        | (x.decipher_only as u32) << 8
}

/// `b` holds the contents of an Extension SEQUENCE.
pub fn compare_ext(b: &[u8]) -> bool {
    let got = Extension::parse(b);
    let want = refm::extension(b, (0, b.len()));
    observe(got.is_ok() as u64);
    match (&got, &want) {
        (Ok(e), Some(r)) => {
            check_ext(e, b, r);
            true
        }
        (Err(_), None) => false,
        (Ok(_), None) => fail("malformed extension accepted"),
        (Err(_), Some(_)) => fail("well-formed extension rejected"),
    }
}

pub fn compare_name(b: &[u8]) -> bool {
    let n = Name { inner: b };
    let got = n.parse();
    let want = refm::name(b, (0, b.len()));
    observe(got.is_ok() as u64);
    match (&got, &want) {
        (Ok(g), Some(w)) => {
            let g = [
                g.common_name,
                g.country_name,
                g.locality_name,
                g.state_or_province_unit_name,
                g.organization,
                g.organizational_unit_name,
            ];
            for k in 0..6 {
                let ok = match (g[k], w[k]) {
                    (None, None) => true,
                    (Some(s), Some(r)) => {
                        observe(k as u64 * 1000 + s.len() as u64);
                        placed(s.as_bytes(), b, r)
                    }
                    _ => false,
                };
                check(ok, "name component differs");
            }
            true
        }
        (Err(_), None) => false,
        (Ok(_), None) => fail("malformed name accepted"),
        (Err(_), Some(_)) => fail("well-formed name rejected"),
    }
}

// ------------------------------------------------------------------ encoding

pub fn put_len(n: usize, out: &mut Vec<u8>) {
    if n < 128 {
        out.push(n as u8);
    } else if n < 256 {
        out.extend([0x81, n as u8]);
    } else if n < 65536 {
        out.extend([0x82, (n >> 8) as u8, n as u8]);
    } else {
        out.extend([0x83, (n >> 16) as u8, (n >> 8) as u8, n as u8]);
    }
}
pub fn tlv(id: u8, c: &[u8]) -> Vec<u8> {
    let mut o = vec![id];
    put_len(c.len(), &mut o);
    o.extend_from_slice(c);
    o
}
pub fn cat(p: &[&[u8]]) -> Vec<u8> {
    let mut o = vec![];
    for x in p {
        o.extend_from_slice(x);
    }
    o
}
pub fn seq(p: &[&[u8]]) -> Vec<u8> {
    tlv(0x30, &cat(p))
}
pub fn set(p: &[&[u8]]) -> Vec<u8> {
    tlv(0x31, &cat(p))
}
pub fn oid(c: &[u8]) -> Vec<u8> {
    tlv(6, c)
}
pub fn bits(unused: u8, c: &[u8]) -> Vec<u8> {
    tlv(3, &cat(&[&[unused], c]))
}
/// one extension; `critical`: 0 absent, 1 TRUE, 2 explicit FALSE
pub fn ext(id: &[u8], critical: u64, content: &[u8]) -> Vec<u8> {
    tlv(0x30, &ext_contents(id, critical, content))
}
pub fn ext_contents(id: &[u8], critical: u64, content: &[u8]) -> Vec<u8> {
    let mut c = oid(id);
    match critical {
        0 => {}
        1 => c.extend([1, 1, 255]),
        _ => c.extend([1, 1, 0]),
    }
    c.extend(tlv(4, content));
    c
}
pub fn ava(arc: u8, string: u8, text: &[u8]) -> Vec<u8> {
    seq(&[&oid(&[0x55, 4, arc]), &tlv(string, text)])
}

pub const SKI: &[u8] = &[0x55, 0x1d, 14];
pub const KU: &[u8] = &[0x55, 0x1d, 15];
pub const SAN: &[u8] = &[0x55, 0x1d, 17];
pub const BC: &[u8] = &[0x55, 0x1d, 19];
pub const EKU: &[u8] = &[0x55, 0x1d, 37];
pub const ROLE: &[u8] = &[0x2b, 6, 1, 4, 1, 0x83, 0x89, 0x0c, 0x86, 0x22, 1];
pub const KP: &[u8] = &[0x2b, 6, 1, 5, 5, 7, 3];

/// Certificate assembled from whole elements.
pub struct Parts {
    pub version: Vec<u8>,
    pub serial: Vec<u8>,
    pub sig: Vec<u8>,
    pub issuer: Vec<u8>,
    pub validity: Vec<u8>,
    pub subject: Vec<u8>,
    pub spki: Vec<u8>,
    pub iuid: Vec<u8>,
    pub suid: Vec<u8>,
    pub exts: Vec<u8>,
    pub sig_alg: Vec<u8>,
    pub sig_value: Vec<u8>,
}
impl Parts {
    /// A small version 3 certificate without optional fields.
    pub fn small() -> Parts {
        Parts {
            version: vec![0xa0, 3, 2, 1, 2],
            serial: vec![2, 1, 7],
            sig: seq(&[&oid(&[0x2b, 0x65, 0x70])]),
            issuer: seq(&[&set(&[&ava(3, 0x0c, b"I")])]),
            validity: seq(&[&tlv(0x17, b"200101000000Z"), &tlv(0x18, b"20491231235959Z")]),
            subject: seq(&[&set(&[&ava(3, 0x13, b"S")])]),
            spki: seq(&[&seq(&[&oid(&[0x2b, 0x65, 0x70])]), &bits(0, &[0xaa, 0xbb])]),
            iuid: vec![],
            suid: vec![],
            exts: vec![],
            sig_alg: seq(&[&oid(&[0x2b, 0x65, 0x70])]),
            sig_value: bits(0, &[0xcc, 0xdd]),
        }
    }
    /// All optional fields and one extension of every kind.
    pub fn full() -> Parts {
        let mut p = Parts::small();
        p.serial = vec![2, 5, 0x11, 0x22, 0x33, 0x44, 0x55];
        p.sig = seq(&[&oid(&[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 5]), &[5, 0]]);
        p.issuer = seq(&[
            &set(&[&ava(6, 0x13, b"NL")]),
            &set(&[&ava(3, 0x0c, b"CA"), &ava(10, 0x16, b"Org")]),
        ]);
        p.subject = seq(&[&set(&[&ava(8, 0x13, b"ST"), &ava(7, 0x0c, b"Lo")]), &set(&[&ava(11, 0x13, b"OU")])]);
        p.spki = seq(&[
            &seq(&[&oid(&[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1]), &[5, 0]]),
            &bits(0, &[0xa1, 0xa2, 0xa3]),
        ]);
        p.iuid = tlv(0x81, &[0, 0x5a]);
        p.suid = tlv(0x82, &[4, 0x50]);
        p.exts = Parts::ext_field(&all_exts());
        p.sig_alg = p.sig.clone();
        p
    }
    pub fn ext_field(list: &[Vec<u8>]) -> Vec<u8> {
        let refs: Vec<&[u8]> = list.iter().map(|x| &x[..]).collect();
        tlv(0xa3, &seq(&refs))
    }
    pub fn tbs(&self) -> Vec<u8> {
        seq(&[
            &self.version,
            &self.serial,
            &self.sig,
            &self.issuer,
            &self.validity,
            &self.subject,
            &self.spki,
            &self.iuid,
            &self.suid,
            &self.exts,
        ])
    }
    pub fn build(&self) -> Vec<u8> {
        seq(&[&self.tbs(), &self.sig_alg, &self.sig_value])
    }
}

pub fn san_content() -> Vec<u8> {
    seq(&[
        &tlv(0x82, b"a.b"),
        &tlv(0x81, b"x@y"),
        &tlv(0x87, &[10, 0, 0, 1]),
        &tlv(0x86, b"u:v"),
        &tlv(0x88, &[0x2a, 3, 4]),
    ])
}
pub fn eku_content() -> Vec<u8> {
    seq(&[&oid(&cat(&[KP, &[1]])), &oid(&cat(&[KP, &[9]]))])
}
pub fn all_exts() -> Vec<Vec<u8>> {
    vec![
        ext(SKI, 0, &tlv(4, &[1, 2, 3, 4])),
        ext(KU, 1, &bits(7, &[0x86, 0x80])),
        ext(SAN, 0, &san_content()),
        ext(BC, 1, &seq(&[&[1, 1, 255], &[2, 1, 5]])),
        ext(EKU, 2, &eku_content()),
        ext(ROLE, 0, &tlv(0x0c, b"op")),
        ext(&[0x55, 0x1d, 35], 0, &[0x30, 0]),
    ]
}

/// `b` with the octet at a chosen place replaced by an arbitrary one.
pub fn corrupt(b: &mut [u8]) -> usize {
    let p = place(b.len());
    b[p] = byte();
    p
}
/// arbitrary index below n, fixed per path
pub fn place(n: usize) -> usize {
    let mut w = [0u8; 2];
    fill(&mut w);
    let p = (w[0] as usize) << 8 | w[1] as usize;
    assume(p < n);
    concretize(p as u64) as usize
}

// ------------------------------------------------------------------ printing

/// Counts brackets, formats everything into nowhere.
#[derive(Default)]
pub struct CountPrinter {
    pub depth: i64,
    pub opened: u64,
    pub bytes: usize,
}
impl core::fmt::Write for CountPrinter {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.bytes += s.len();
        Ok(())
    }
}
impl LinePrinter for CountPrinter {
    fn begin_type(&mut self) {
        self.depth += 1;
        self.opened += 1;
    }
    fn begin_line(&mut self) {}
    fn print_fmt(&mut self, fmt: &core::fmt::Arguments) {
        let _ = core::fmt::Write::write_fmt(self, *fmt);
    }
    fn print_str(&mut self, s: &str) {
        self.bytes += s.len();
    }
    fn println_fmt(&mut self, fmt: &core::fmt::Arguments) {
        let _ = core::fmt::Write::write_fmt(self, *fmt);
    }
    fn println_str(&mut self, s: &str) {
        self.bytes += s.len();
    }
    fn end_type(&mut self) {
        check(self.depth > 0, "more levels closed than opened");
        self.depth -= 1;
    }
}

/// Formats into nowhere.
pub struct Sink(pub usize);
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

/// Formats into a buffer.
#[derive(Default)]
pub struct Text(pub Vec<u8>);
impl core::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.0.extend_from_slice(s.as_bytes());
        Ok(())
    }
}
pub fn show(x: &dyn core::fmt::Display) -> Vec<u8> {
    let mut t = Text::default();
    let r = core::fmt::Write::write_fmt(&mut t, format_args!("{}", x));
    check(r.is_ok(), "formatting failed");
    t.0
}
#[inline(never)]
pub fn magnitude(v: i64) -> u64 {
    // the sign decided first, so that the same number always gives the same terms
    if concretize((v < 0) as u64) != 0 {
        (v as u64).wrapping_neg()
    } else {
        v as u64
    }
}
/// The same for 32 bits, computed in 32 bits as core does.
#[inline(never)]
pub fn magnitude32(v: i32) -> u64 {
    if concretize((v < 0) as u64) != 0 {
        (v as u32).wrapping_neg() as u64
    } else {
        v as u32 as u64
    }
}
/// `v` in decimal, right-aligned; the number of digits.
#[inline(never)]
pub fn digits(v: u64, out: &mut [u8; 20]) -> usize {
    // small numbers in the same terms, however wide the type they come in
    let v = if concretize((v >> 32 == 0) as u64) != 0 { v as u32 as u64 } else { v };
    let mut n = 1;
    let mut p = 1u64;
    while n < 20 && v >= p * 10 {
        p *= 10;
        n += 1;
    }
    p = 1;
    for k in 0..n {
        out[19 - k] = b'0' + (v / p % 10) as u8;
        if k + 1 < n {
            p *= 10;
        }
    }
    n
}
/// In the symbolic build the engine puts these in place of core's `Display` for integers (the
/// suffix is the type's letter in mangled names).
#[cfg(not(feature = "native"))]
mod show_dec {
    use super::{digits, magnitude};
    use core::fmt::*;
    #[inline(never)]
    fn show(neg: bool, v: u64, f: &mut Formatter) -> Result {
        let mut b = [0u8; 20];
        let n = digits(v, &mut b);
        f.pad_integral(!neg, "", unsafe { core::str::from_utf8_unchecked(&b[20 - n..]) })
    }
    macro_rules! un { ($($n:ident $t:ty),*) => { $(#[no_mangle] pub fn $n(x: &$t, f: &mut Formatter) -> Result { show(false, *x as u64, f) })* } }
    macro_rules! si { ($($n:ident $t:ty),*) => { $(#[no_mangle] pub fn $n(x: &$t, f: &mut Formatter) -> Result { let v = *x as i64; show(v < 0, magnitude(v), f) })* } }
    /// `UpperHex` for octets, two digits with leading zeros (as everywhere here) without branching
    #[no_mangle]
    pub fn show_hex_h(x: &u8, f: &mut Formatter) -> Result {
        let b = [super::hexdigit(*x / 16), super::hexdigit(*x % 16)];
        let s = unsafe { core::str::from_utf8_unchecked(&b) };
        if f.width() == Some(2) && f.sign_aware_zero_pad() && !f.alternate() && !f.sign_plus() {
            return f.write_str(s);
        }
        f.pad_integral(true, "0x", if *x < 16 { &s[1..] } else { s })
    }
    #[no_mangle]
    pub fn show_hex_rh(x: &&u8, f: &mut Formatter) -> Result {
        show_hex_h(x, f)
    }
    /// the digits at the end of a buffer of fixed size; where they begin
    #[inline(never)]
    fn inner(v: u64, p: *mut u8, len: usize) -> usize {
        let mut b = [0u8; 20];
        let n = digits(v, &mut b);
        unsafe { core::ptr::copy_nonoverlapping(b.as_ptr().add(20 - n), p.add(len - n), n) };
        len - n
    }
    #[no_mangle]
    pub fn show_inner_h(x: u8, p: *mut u8) -> usize {
        inner(x as u64, p, 3)
    }
    #[no_mangle]
    pub fn show_inner_t(x: u16, p: *mut u8) -> usize {
        inner(x as u64, p, 5)
    }
    #[no_mangle]
    pub fn show_inner_m(x: u32, p: *mut u8) -> usize {
        inner(x as u64, p, 10)
    }
    #[no_mangle]
    pub fn show_inner_y(x: u64, p: *mut u8) -> usize {
        inner(x, p, 20)
    }
    #[no_mangle]
    pub fn show_inner_j(x: usize, p: *mut u8) -> usize {
        inner(x as u64, p, 20)
    }
    #[no_mangle]
    pub fn show_dec_l(x: &i32, f: &mut Formatter) -> Result {
        show(*x < 0, super::magnitude32(*x), f)
    }
    un! { show_dec_h u8, show_dec_t u16, show_dec_m u32, show_dec_y u64, show_dec_j usize }
    si! { show_dec_a i8, show_dec_s i16, show_dec_x i64, show_dec_i isize }
}
/// `s` is `v` written in decimal.
pub fn decimal(s: &[u8], v: i64) -> bool {
    let neg = v < 0;
    let s = if neg {
        if s.first() != Some(&b'-') {
            return false;
        }
        &s[1..]
    } else {
        s
    };
    unsigned(s, magnitude(v))
}
pub fn unsigned(s: &[u8], v: u64) -> bool {
    let mut b = [0u8; 20];
    let n = digits(v, &mut b);
    same(s, &b[20 - n..])
}
pub fn hexdigit(d: u8) -> u8 {
    if d < 10 {
        b'0' + d
    } else {
        b'A' + d - 10
    }
}
/// `s` is `b` in two-digit hexadecimal separated by colons (either case).
pub fn hex(s: &[u8], b: &[u8]) -> bool {
    if b.is_empty() || s.len() != b.len() * 3 - 1 {
        return false;
    }
    let up = |c: u8| if c >= b'a' { c - 32 } else { c };
    let mut ok = true;
    for i in 0..b.len() {
        ok &= (up(s[3 * i]) == hexdigit(b[i] / 16)) & (up(s[3 * i + 1]) == hexdigit(b[i] % 16));
        if i > 0 {
            ok &= s[3 * i - 1] == b':';
        }
    }
    ok
}

// ------------------------------------------------------------------ editing documents

/// A document as a tree of elements; only containers the reference knows are opened.
#[derive(Clone)]
pub enum Node {
    Leaf(Vec<u8>),
    Con(u8, Vec<Node>),
}
pub fn tree(b: &[u8], r: R) -> Vec<Node> {
    let mut out = vec![];
    let mut p = r.0;
    while p < r.1 {
        match refm::elem(b, p, r.1) {
            Some((e, q)) => {
                if e.container() {
                    out.push(Node::Con(b[p], tree(b, e.range())));
                } else {
                    out.push(Node::Leaf(b[p..q].to_vec()));
                }
                p = q;
            }
            None => {
                out.push(Node::Leaf(b[p..r.1].to_vec()));
                return out;
            }
        }
    }
    out
}
pub fn flatten(t: &[Node]) -> Vec<u8> {
    let mut out = vec![];
    for n in t {
        match n {
            Node::Leaf(b) => out.extend_from_slice(b),
            Node::Con(id, c) => out.extend(tlv(*id, &flatten(c))),
        }
    }
    out
}
/// Number of containers, the whole document counting as one.
pub fn containers(t: &[Node]) -> usize {
    1 + t.iter().map(|n| if let Node::Con(_, c) = n { containers(c) } else { 0 }).sum::<usize>()
}
/// The `k`-th container's elements, in preorder.
pub fn container<'t>(t: &'t mut Vec<Node>, k: &mut usize) -> Option<&'t mut Vec<Node>> {
    if *k == 0 {
        return Some(t);
    }
    *k -= 1;
    for n in t.iter_mut() {
        if let Node::Con(_, c) = n {
            if let Some(x) = container(c, k) {
                return Some(x);
            }
        }
    }
    None
}
/// One structural edit somewhere in `b`: an element removed, repeated, moved behind its
/// successor, replaced by an arbitrary element, or an arbitrary element inserted (anywhere,
/// also at the ends).  The lengths around it are adjusted.  `n`: contents of the new element.
pub fn edit(b: &[u8], n: usize) -> Vec<u8> {
    let mut t = tree(b, (0, b.len()));
    let count = containers(&t);
    let mut k = place(count);
    let what = choose(0, 4);
    if let Some(c) = container(&mut t, &mut k) {
        let p = place(c.len() + 1);
        match what {
            0 => {
                assume(p < c.len());
                c.remove(p);
            }
            1 => {
                assume(p < c.len());
                let x = c[p].clone();
                c.insert(p, x);
            }
            2 => {
                assume(p + 1 < c.len());
                c.swap(p, p + 1);
            }
            3 => {
                assume(p < c.len());
                c[p] = Node::Leaf(tlv(byte(), &bytes(n)));
            }
            _ => c.insert(p, Node::Leaf(tlv(byte(), &bytes(n)))),
        }
    }
    flatten(&t)
}

/// Extension block of a certificate that parsed, against the reference.
pub fn compare_exts(c: &Certificate, b: &[u8], r: &refm::Cert) -> Option<bool> {
    let (x, w) = match (&c.tbs_certificate.value.extensions, r.exts) {
        (Some(x), Some(w)) => (x, w),
        (None, None) => return None,
        _ => fail("presence of the extensions differs"),
    };
    let got = x.parse();
    let want = refm::extensions(b, w);
    observe(got.is_ok() as u64);
    match (&got, &want) {
        (Ok(g), Some(w)) => {
            check(g.len() == w.len(), "number of extensions differs");
            for (e, r) in g.iter().zip(w) {
                check_ext(e, b, r);
            }
            Some(true)
        }
        (Err(_), None) => Some(false),
        (Ok(_), None) => fail("malformed extension block accepted"),
        (Err(_), Some(_)) => fail("well-formed extension block rejected"),
    }
}

/// `n` elements next to each other, containers or not, two arbitrary octets behind them
pub fn crowd(n: usize) -> Vec<u8> {
    let mut b = vec![];
    let k = choose(0, 2);
    for i in 0..n {
        match k {
            0 => b.extend_from_slice(&[5, 0]),
            1 => b.extend_from_slice(&[0x30, 0]),
            _ => b.extend_from_slice(&[0xa0 + (i % 31) as u8, 3, 2, 1, 7]),
        }
    }
    b.extend_from_slice(&bytes(2));
    match choose(0, 1) {
        0 => b,
        _ => seq(&[&b]),
    }
}
/// A well-formed document of some `n` octets: one element, or small ones of several types.
pub fn bulk(n: usize) -> Vec<u8> {
    let small = [&[5, 0][..], &[1, 1, 255], &[2, 2, 1, 0], &[0x30, 2, 4, 0], &[0x13, 1, b'P']];
    match choose(0, 2) {
        0 => tlv(4, &vec![0x5a; n]),
        1 => seq(&[&[2, 1, 1], &tlv(0x31, &tlv(0x0c, &vec![b'b'; n]))]),
        _ => (0..n.min(300) / 3).flat_map(|i| small[i % small.len()].iter().copied()).collect(),
    }
}
/// `b` with `k` arbitrary octets before it or behind it, at the top level or within something
pub fn beside(b: &[u8], k: usize) -> Vec<u8> {
    let x = bytes(k);
    // before it, they decide where everything else begins
    let b = match choose(0, (k <= 2 && b.len() <= 320) as u64) {
        0 => cat(&[b, &x]),
        _ => cat(&[&x, b]),
    };
    match choose(0, 2) {
        0 => b,
        1 => tlv(0xa1, &b),
        _ => cat(&[&[5, 0], &seq(&[&b]), &[5, 0]]),
    }
}
/// `n` containers within each other, an element before or behind each, two arbitrary octets inside
pub fn within(n: usize) -> Vec<u8> {
    let mut b = bytes(2);
    let k = choose(0, 2);
    for i in 0..n {
        let id = [0x30, 0x31, 0xa3][i % 3];
        b = match k {
            0 => tlv(id, &b),
            1 => tlv(id, &cat(&[&[5, 0], &b])),
            _ => tlv(id, &cat(&[&b, &[5, 0]])),
        };
    }
    b
}
/// `n` arbitrary octets, or when that is too many a pattern with arbitrary ones at both ends and
/// around some places
pub fn span(n: usize) -> Vec<u8> {
    if n <= 400 {
        return bytes(n);
    }
    let mut b: Vec<u8> = (0..n).map(|i| (i * 7 + i / 256) as u8).collect();
    for at in [0, 126, 254, 510, 1022, 4094, 8190, 32766, 65534, n - 4] {
        if at + 4 <= n {
            fill(&mut b[at..at + 4]);
        }
    }
    b
}
/// `n` octets of ASCII, as in `span`
pub fn ascii(n: usize) -> Vec<u8> {
    let mut b = span(n);
    if n > 400 {
        for x in b.iter_mut() {
            *x &= 127;
        }
        return b;
    }
    let mut ok = true;
    for x in &b {
        ok &= *x < 128;
    }
    assume(ok);
    b
}
/// about `n` octets of text in characters of two to four octets, at every offset
pub fn runes(n: usize) -> Vec<u8> {
    let w = choose(2, 4) as usize;
    let lead = choose(0, w as u64 - 1) as usize;
    let mut b = ascii(lead);
    while b.len() < n {
        b.extend_from_slice(&["\u{e9}", "\u{20ac}", "\u{1f511}"][w - 2].as_bytes());
    }
    b
}
/// an octet no element begins with, and `n` arbitrary ones
pub fn junk(n: usize) -> Vec<u8> {
    let b = bytes(n + 1);
    let i = b[0];
    let mut ok = !((i >= 0xa0) & (i <= 0xbe)) & !((i >= 0x80) & (i <= 0x9e));
    for k in [1u8, 2, 3, 4, 5, 6, 0x0c, 0x13, 0x16, 0x17, 0x18, 0x30, 0x31] {
        ok &= i != k;
    }
    assume(ok);
    b
}
/// a certificate with `t` as every text
pub fn texts(t: &[u8]) -> Vec<u8> {
    let mut p = Parts::small();
    let n: Vec<Vec<u8>> = [3, 6, 7, 8, 10, 11].iter().map(|k| set(&[&ava(*k, 0x0c, t)])).collect();
    let refs: Vec<&[u8]> = n.iter().map(|x| &x[..]).collect();
    p.issuer = seq(&[&set(&[&ava(3, 0x13, t)])]);
    p.subject = seq(&refs);
    p.exts = Parts::ext_field(&[
        ext(SAN, 0, &seq(&[&tlv(0x81, t), &tlv(0x82, t), &tlv(0x86, t), &tlv(0x87, t)])),
        ext(ROLE, 0, &tlv(0x0c, t)),
        ext(SKI, 0, &tlv(4, t)),
        ext(&[0x2a, 3], 0, t),
    ]);
    p.build()
}
