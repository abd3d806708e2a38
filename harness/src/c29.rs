//! The report as a tree of lines; labels are found by the words they consist of, values must
//! follow exactly.
use crate::common::*;
use crate::os::*;
use crate::refm::{self, Ev, Ext, Extn, Gn};
use crate::sym::*;
use rx509::der::*;
use rx509::x509::ext::*;
use rx509::x509::printer::*;
use rx509::x509::*;

struct Item {
    text: Vec<u8>,
    sub: Vec<Item>,
}
fn items(l: &[Line], at: &mut usize, depth: usize) -> Vec<Item> {
    let mut out: Vec<Item> = vec![];
    while *at < l.len() && l[*at].depth >= depth {
        if l[*at].depth > depth {
            let d = l[*at].depth;
            let sub = items(l, at, d);
            match out.last_mut() {
                Some(x) => x.sub.extend(sub),
                None => out.extend(sub),
            }
        } else {
            out.push(Item { text: l[*at].text.clone(), sub: vec![] });
            *at += 1;
        }
    }
    out
}
fn report(p: &dyn Printable) -> Vec<Item> {
    let mut r = Report::default();
    p.print(&mut r);
    check(r.depth == 0, "levels opened but not closed");
    for l in &r.lines {
        observe_bytes(&l.text);
    }
    let mut at = 0;
    items(&r.lines, &mut at, 0)
}
/// letters and digits in front of the colon, in lower case
fn label(t: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for c in t {
        if *c == b':' {
            break;
        }
        if c.is_ascii_alphanumeric() {
            o.push(c.to_ascii_lowercase());
        }
    }
    o
}
/// what follows the colon
fn value(t: &[u8]) -> &[u8] {
    let mut k = 0;
    while k < t.len() && t[k] != b':' {
        k += 1;
    }
    let t = &t[(k + 1).min(t.len())..];
    if t.first() == Some(&b' ') {
        &t[1..]
    } else {
        t
    }
}
/// the items with this label
fn with<'i>(l: &'i [Item], want: &[u8]) -> Vec<&'i Item> {
    l.iter().filter(|x| label(&x.text) == want).collect()
}
fn one<'i>(l: &'i [Item], want: &[u8]) -> &'i Item {
    let v = with(l, want);
    check(v.len() == 1, "a line is missing from the report, or repeated");
    v[0]
}
fn states(l: &[Item], want: &[u8], v: &[u8]) {
    check(same(value(&one(l, want).text), v), "a line states another value");
}
/// all octets in order as two digits each, sixteen to a line
fn dump(l: &[Item], b: &[u8]) {
    check(l.len() == (b.len() + 15) / 16, "number of lines of a dump");
    for (k, x) in l.iter().enumerate() {
        check(x.sub.is_empty(), "lines below a dump");
        let c = &b[16 * k..(16 * k + 16).min(b.len())];
        check(hex(&x.text, c), "a line of a dump differs from the octets");
    }
    cover("dump");
}
/// the only thing printed below may be nested once more
fn below(x: &Item) -> &[Item] {
    &x.sub
}
fn arcs(a: &[u32]) -> Vec<u8> {
    show(&ASNObjectIdentifier::new(a.to_vec()))
}
fn flag(b: bool) -> &'static [u8] {
    if b {
        b"true"
    } else {
        b"false"
    }
}
fn seconds(v: u64) -> Vec<u8> {
    let mut b = [0u8; 20];
    let n = digits(v, &mut b);
    b[20 - n..].to_vec()
}
fn signed(v: i64) -> Vec<u8> {
    let mut s = seconds(magnitude32(v as i32));
    if v < 0 {
        s.insert(0, b'-');
    }
    s
}

const USAGES: &[&[u8]] = &[
    b"digitalsignature", b"contentcommitment", b"keyencipherment", b"dataencipherment", b"keyagreement", b"keycertsign", b"crlsign",
    b"encipheronly", b"decipheronly",
];
const PURPOSES: &[&[u8]] = &[b"serverauth", b"clientauth", b"codesigning", b"emailprotection", b"timestamping", b"ocspsigning"];
const NAMES: &[&[u8]] = &[
    b"subjectkeyidentifier", b"keyusage", b"subjectalternativename", b"basicconstraints", b"extendedkeyusage", b"modbusrole", b"unknown",
];
/// the items below a heading, or those on the heading's own level behind it
fn under<'i>(l: &'i [Item], want: &[u8]) -> &'i [Item] {
    &one(l, want).sub
}
fn kind(e: &Ext) -> usize {
    match e {
        Ext::Ski(_) => 0,
        Ext::Ku(_) => 1,
        Ext::San(_) => 2,
        Ext::Bc(..) => 3,
        Ext::Eku(_) => 4,
        Ext::Role(_) => 5,
        Ext::Unknown(_) => 6,
    }
}
/// the lines of an extension's value
fn body(l: &[Item], b: &[u8], e: &Ext) {
    match e {
        Ext::Ski(r) => dump(under(l, b"keyidentifier"), &b[r.0..r.1]),
        Ext::Ku(w) => {
            let u = under(l, b"usages");
            let mut n = 0;
            for (k, name) in USAGES.iter().enumerate() {
                let c = with(u, name).len();
                check(c == (*w >> k & 1) as usize, "usage stated though not set, or not stated though set");
                n += c;
            }
            check(u.len() == n, "something else among the usages");
            cover("usages");
        }
        Ext::San(w) => {
            let u = under(l, b"names");
            check(u.len() == w.len(), "number of names stated");
            for (x, g) in u.iter().zip(w) {
                let key = label(&x.text);
                let ok = match g {
                    Gn::Text(t, r) => {
                        let word: &[u8] = match *t {
                            1 => b"rfc822name",
                            2 => b"dnsname",
                            _ => b"uniformresourceidentifier",
                        };
                        key == word && same(value(&x.text), &b[r.0..r.1])
                    }
                    Gn::Ip(r) => {
                        dump(&x.sub, &b[r.0..r.1]);
                        key == b"ipaddress"
                    }
                    Gn::Id(a) => key == b"registeredid" && same(value(&x.text), &arcs(a)),
                };
                check(ok, "a name stated under another kind or with another value");
            }
            cover("names");
        }
        Ext::Bc(ca, path) => {
            states(l, b"ca", flag(*ca));
            let p: Vec<&Item> = l.iter().filter(|x| label(&x.text).starts_with(b"pathlength")).collect();
            match path {
                None => check(p.is_empty(), "a path length stated that is not there"),
                Some(v) => {
                    check(p.len() == 1, "path length not stated once");
                    check(same(value(&p[0].text), &signed(*v)), "another path length stated");
                }
            }
            cover("constraints");
        }
        Ext::Eku(w) => {
            let u = under(l, b"usages");
            check(u.len() == w.len(), "number of purposes stated");
            for (x, p) in u.iter().zip(w) {
                check(label(&x.text) == PURPOSES[*p as usize], "another purpose stated");
            }
            cover("purposes");
        }
        Ext::Role(r) => {
            states(l, b"role", &b[r.0..r.1]);
            cover("role");
        }
        Ext::Unknown(r) => dump(under(l, b"rawcontent"), &b[r.0..r.1]),
    }
}
fn extension(x: &Item, b: &[u8], e: &Extn) {
    check(label(&x.text) == NAMES[kind(&e.body)], "extension under another heading");
    states(&x.sub, b"extensionid", &arcs(&e.oid));
    states(&x.sub, b"critical", flag(e.critical));
    body(&x.sub, b, &e.body);
}
fn algorithm(l: &[Item], a: &[u32]) {
    states(l, b"algorithm", &arcs(a));
}
fn bits_dump(x: &Item, b: &[u8], e: &Ev) {
    if e.v == 0 {
        dump(&x.sub, &b[e.start..e.start + e.len]);
    }
}
/// a name: its components under their labels, or its octets when it cannot be read
fn name(l: &[Item], what: &[u8], b: &[u8], r: refm::R) {
    match refm::name(b, r) {
        Some(n) => {
            let x = one(l, what);
            let mut all = 0;
            for (k, key) in [&b"cn"[..], b"c", b"l", b"st", b"o", b"ou"].iter().enumerate() {
                match n[k] {
                    Some(v) => {
                        states(&x.sub, key, &b[v.0..v.1]);
                        all += 1;
                    }
                    None => check(with(&x.sub, key).is_empty(), "a component stated that is not there"),
                }
            }
            check(x.sub.len() == all, "something else among the components");
            cover("components");
        }
        None => {
            let raw = cat(&[what, b"raw"]);
            let x = one(l, &raw);
            dump(below(x), &b[r.0..r.1]);
            cover("raw name");
        }
    }
}
fn certificate(l: &[Item], b: &[u8], r: &refm::Cert) {
    algorithm(under(l, b"signaturealgorithm"), &r.sig_alg.oid);
    bits_dump(one(l, b"signaturevalue"), b, &r.sig_value);
    let l = under(l, b"tbscertificate");
    let v = one(l, b"version");
    check(v.text.last() == Some(&(b'0' + r.version)), "another version stated");
    states(l, b"serialnumber", &show(&ASNInteger::new(&b[r.serial.0..r.serial.1])));
    algorithm(under(l, b"signature"), &r.sig.oid);
    let val = under(l, b"validity");
    states(val, b"notbefore", &seconds(r.not_before));
    states(val, b"notafter", &seconds(r.not_after));
    name(l, b"issuer", b, r.issuer);
    name(l, b"subject", b, r.subject);
    let k = under(l, b"subjectpublickeyinfo");
    algorithm(under(k, b"algorithm"), &r.key_alg.oid);
    bits_dump(one(k, b"subjectpublickey"), b, &r.key);
    for (u, key) in [(&r.issuer_uid, &b"issueruniqueid"[..]), (&r.subject_uid, b"subjectuniqueid")] {
        match u {
            Some(e) => bits_dump(one(l, key), b, e),
            None => check(with(l, key).is_empty(), "a unique id stated that is not there"),
        }
    }
    let h = with(l, b"extensions");
    match r.exts.map(|w| refm::extensions(b, w)) {
        Some(Some(w)) => {
            if w.is_empty() {
                check(h.is_empty() || h[0].sub.is_empty(), "extensions stated that are not there");
            } else {
                check(h.len() == 1 && h[0].sub.len() == w.len(), "number of extensions stated");
                for (x, e) in h[0].sub.iter().zip(&w) {
                    extension(x, b, e);
                }
            }
            cover("extensions");
        }
        // nothing derived from the extensions
        _ => check(h.is_empty(), "extensions stated that are not there"),
    }
}
/// The numbers as parsed, once known to be those encoded (so that printed and expected digits
/// come from the same terms).
fn numbers(e: &mut Extn, x: &Extension) {
    if let (SpecificExtension::BasicConstraints(c), Ext::Bc(_, Some(v))) = (&x.content, &mut e.body) {
        if let Some(p) = c.path_length_constraint {
            check(p as i64 == *v, "another path length parsed");
            *v = p as i64;
        }
    }
}
fn cert(b: &[u8]) {
    if let (Ok(c), Some(mut r)) = (Certificate::parse(b), refm::cert(b, (0, b.len()))) {
        let v = &c.tbs_certificate.value.validity;
        check(v.not_before.value == r.not_before && v.not_after.value == r.not_after, "another validity parsed");
        (r.not_before, r.not_after) = (v.not_before.value, v.not_after.value);
        certificate(&report(&c), b, &r);
        cover("certificate");
    }
}
/// contents of an extension
fn ext_alone(b: &[u8]) {
    if let (Ok(e), Some(mut r)) = (Extension::parse(b), refm::extension(b, (0, b.len()))) {
        numbers(&mut r, &e);
        let l = report(&e);
        check(l.len() == 1, "an extension is not one item");
        extension(&l[0], b, &r);
    }
}

fn template() -> Vec<u8> {
    if arg() == 0 {
        Parts::small().build()
    } else {
        Parts::full().build()
    }
}
/// one arbitrary octet anywhere
fn flip() {
    let mut b = template();
    corrupt(&mut b);
    cert(&b);
}
/// one structural edit
fn edits() {
    let t = if arg() & 1 == 0 { Parts::small().build() } else { Parts::full().build() };
    cert(&edit(&t, arg() as usize / 2));
}
/// version and serial number of arg octets
fn head() {
    let mut p = Parts::small();
    p.version = if choose(0, 1) == 0 { vec![] } else { vec![0xa0, 3, 2, 1, byte()] };
    p.serial = tlv(2, &bytes(arg() as usize));
    cert(&p.build());
}
/// two adjacent digits of each time at place arg
fn times() {
    let mut p = Parts::small();
    let (mut a, mut b) = (b"200101000000Z".to_vec(), b"20491231235959Z".to_vec());
    let k = 2 * arg() as usize;
    fill(&mut a[k..k + 2]);
    fill(&mut b[k + 2..k + 4]);
    p.validity = seq(&[&tlv(0x17, &a), &tlv(0x18, &b)]);
    cert(&p.build());
}
/// algorithms, key and unique ids
fn keys() {
    let n = arg() as usize;
    let mut p = Parts::full();
    p.exts = vec![];
    p.sig = seq(&[&oid(&cat(&[&[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1], &[byte()]]))]);
    p.spki = seq(&[&seq(&[&oid(&[0x2b, 0x65, byte()])]), &bits(0, &bytes(n))]);
    p.iuid = tlv(0x81, &cat(&[&[byte()], &bytes(n)]));
    p.suid = if choose(0, 1) == 0 { vec![] } else { tlv(0x82, &cat(&[&[0], &bytes(n)])) };
    cert(&p.build());
}
/// names of up to three attributes with arbitrary last arc and text
fn components() {
    let n = arg() as usize;
    let mut p = Parts::small();
    let mk = |n: usize| {
        let mut v: Vec<Vec<u8>> = vec![];
        for k in 0..n {
            v.push(set(&[&ava(byte(), 0x0c, &[b"ab"[k % 2], b'x'])]));
        }
        let refs: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
        seq(&refs)
    };
    if choose(0, 1) == 0 {
        p.subject = mk(n);
    } else {
        p.issuer = mk(n);
    }
    cert(&p.build());
}
/// the text of one component of each kind arbitrary
fn component_text() {
    let n = arg() as usize;
    let mut p = Parts::small();
    let ids = [3, 6, 7, 8, 10, 11];
    let k = place(6);
    let mut v = vec![];
    for (j, id) in ids.iter().enumerate() {
        let t = if j == k { bytes(n) } else { vec![b'p' + j as u8; 2] };
        v.push(set(&[&ava(*id, 0x0c, &t)]));
    }
    let refs: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
    p.subject = seq(&refs);
    cert(&p.build());
}
/// text of `arg` octets wherever there is text
fn all_texts() {
    let n = arg() as usize / 2;
    let t = if arg() % 2 == 0 { ascii(n) } else { runes(n) };
    cert(&texts(&t));
}
/// names that cannot be read
fn raw_name() {
    let n = arg() as usize;
    let mut p = Parts::small();
    let t = cat(&[&[0x31, 0x7f], &bytes(n)]);
    if choose(0, 1) == 0 {
        p.subject = tlv(0x30, &t);
    } else {
        p.issuer = tlv(0x30, &t);
    }
    cert(&p.build());
}
const IDS: &[&[u8]] = &[SKI, KU, SAN, BC, EKU, ROLE, &[0x55, 0x1d, 35]];
fn values() -> Vec<Vec<u8>> {
    vec![tlv(4, &[1, 2, 3, 4]), bits(7, &[0x86, 0x80]), san_content(), seq(&[&[1, 1, 255], &[2, 1, 5]]), eku_content(), tlv(0x0c, b"op"), vec![0x30, 0]]
}
/// any value of arg / 8 octets of every kind (arg % 8) and criticality
fn contents() {
    ext_alone(&ext_contents(IDS[arg() as usize % 8], choose(0, 2), &bytes(arg() as usize / 8)));
}
/// one octet of the value arbitrary
fn near() {
    let k = arg() as usize % 8;
    let mut v = values()[k].clone();
    corrupt(&mut v);
    ext_alone(&ext_contents(IDS[k], choose(0, 1), &v));
}
/// the value edited
fn ext_edits() {
    let k = arg() as usize % 8;
    ext_alone(&ext_contents(IDS[k], 0, &edit(&values()[k], arg() as usize / 8)));
}
/// any usages
fn usages() {
    ext_alone(&ext_contents(KU, choose(0, 1), &bits(byte(), &bytes(arg() as usize))));
}
/// any constraints
fn constraints() {
    let ca = tlv(1, &[byte()]);
    let path = tlv(2, &bytes(arg() as usize));
    let v = match choose(0, 3) {
        0 => vec![],
        1 => ca,
        2 => path,
        _ => cat(&[&ca, &path]),
    };
    ext_alone(&ext_contents(BC, choose(0, 2), &tlv(0x30, &v)));
}
/// arg names of any kind with two arbitrary characters
fn names() {
    let mut v = vec![];
    for _ in 0..arg() {
        let k = [1, 2, 6, 7, 8][place(5)];
        v.push(tlv(0x80 | k, &bytes(2)));
    }
    let refs: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
    ext_alone(&ext_contents(SAN, 0, &seq(&refs)));
}
/// arg purposes
fn purposes() {
    let mut v = vec![];
    for _ in 0..arg() {
        v.push(oid(&cat(&[KP, &[byte()]])));
    }
    let refs: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
    ext_alone(&ext_contents(EKU, 0, &seq(&refs)));
}
/// identifiers of unknown extensions
fn ids() {
    ext_alone(&ext_contents(&cat(&[&[0x55, 0x1d], &bytes(arg() as usize)]), choose(0, 2), &[4, 1, 7]));
}
/// two extensions in any order, in a certificate
fn order() {
    let (a, b) = (place(IDS.len()), place(IDS.len()));
    let v = values();
    let mut p = Parts::small();
    p.exts = Parts::ext_field(&[ext(IDS[a], choose(0, 1), &v[a]), ext(IDS[b], choose(0, 2), &v[b])]);
    cert(&p.build());
}
/// dumps of arg octets
fn dumps() {
    let b = span(arg() as usize);
    let l = report(&SubjectKeyIdentifier { key_identifier: &b });
    dump(under(&l, b"keyidentifier"), &b);
    let l = report(&SpecificExtension::Unknown(&b));
    dump(under(&l, b"rawcontent"), &b);
    let l = report(&Name { inner: &b });
    dump(&l, &b);
    let l = report(&ASNBitString::new(0, &b));
    dump(&l, &b);
}
/// instants and flags not taken from documents
fn given() {
    let mut t = [0u8; 16];
    fill(&mut t);
    let mut a = [0u8; 8];
    a.copy_from_slice(&t[..8]);
    let x = u64::from_be_bytes(a);
    a.copy_from_slice(&t[8..]);
    let y = u64::from_be_bytes(a);
    let v = Validity { not_before: UtcTime::from_seconds_since_epoch(x), not_after: UtcTime::from_seconds_since_epoch(y) };
    let l = report(&v);
    states(&l, b"notbefore", &seconds(x));
    states(&l, b"notafter", &seconds(y));
    cover("given");
}
/// what reaches the console is the report
fn console() {
    let b = match arg() {
        0 => {
            let mut p = Parts::small();
            p.serial = tlv(2, &bytes(1));
            p.subject = seq(&[&set(&[&ava(3, 0x0c, &bytes(1))])]);
            p.exts = Parts::ext_field(&[ext(SKI, 0, &tlv(4, &bytes(20)))]);
            p.build()
        }
        1 => Parts::full().build(),
        n => {
            // long lines
            let mut p = Parts::small();
            p.subject = seq(&[&set(&[&ava(3, 0x0c, &vec![b'x'; n as usize])])]);
            p.exts = Parts::ext_field(&[ext(SKI, 0, &tlv(4, &vec![0x5a; n as usize]))]);
            p.build()
        }
    };
    if let Ok(c) = Certificate::parse(&b) {
        let mut r = Report::default();
        c.print(&mut r);
        let out = capture(|| c.print(&mut ConsoleLinePrinter::new()));
        observe_bytes(&out);
        compare_report(&out, &r);
        cover("console");
    }
}
export! {
    h_c29_flip => flip, h_c29_edits => edits, h_c29_head => head, h_c29_times => times, h_c29_keys => keys, h_c29_components => components,
    h_c29_component_text => component_text, h_c29_texts => all_texts, h_c29_raw_name => raw_name, h_c29_contents => contents, h_c29_near => near, h_c29_ext_edits => ext_edits,
    h_c29_usages => usages, h_c29_constraints => constraints, h_c29_names => names, h_c29_purposes => purposes, h_c29_ids => ids,
    h_c29_order => order, h_c29_dumps => dumps, h_c29_given => given, h_c29_console => console,
}
