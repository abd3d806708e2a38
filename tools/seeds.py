LIB_DEMO = """#!/bin/sh
# builds demo.rs against the library in the current directory; everything stays in a scratch directory
S=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
mkdir "$D/src"
cp "$S/demo.rs" "$D/src/main.rs"
cat > "$D/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
rx509 = { path = "$PWD/rx509" }
[workspace]
EOF
export CARGO_TARGET_DIR="$D/target" CARGO_NET_OFFLINE=true
cd "$D" && cargo run -q --offline
"""
TOOL_DEMO = """#!/bin/sh
# builds the decoder from the current directory; everything stays in a scratch directory
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
export CARGO_TARGET_DIR="$D/target" CARGO_NET_OFFLINE=true
cargo build -q --offline -p decoder || exit 2
T="$D/target/debug/decoder"
"""
PRELUDE = r"""#![allow(dead_code, unused_imports, unused_variables)]
use rx509::der::*;
use rx509::x509::ext::*;
use rx509::x509::printer::*;
use rx509::x509::*;

fn tlv(id: u8, c: &[u8]) -> Vec<u8> {
    let mut o = vec![id];
    let n = c.len();
    if n < 128 {
        o.push(n as u8);
    } else if n < 256 {
        o.extend_from_slice(&[0x81, n as u8]);
    } else if n < 65536 {
        o.extend_from_slice(&[0x82, (n >> 8) as u8, n as u8]);
    } else {
        o.extend_from_slice(&[0x83, (n >> 16) as u8, (n >> 8) as u8, n as u8]);
    }
    o.extend_from_slice(c);
    o
}
fn cat(p: &[&[u8]]) -> Vec<u8> {
    p.concat()
}
fn seq(p: &[&[u8]]) -> Vec<u8> {
    tlv(0x30, &p.concat())
}
fn ext(id: &[u8], critical: &[u8], v: &[u8]) -> Vec<u8> {
    seq(&[&tlv(6, id), critical, &tlv(4, v)])
}
fn ext_contents(id: &[u8], v: &[u8]) -> Vec<u8> {
    cat(&[&tlv(6, id), &tlv(4, v)])
}
fn ava(arc: u8, id: u8, v: &[u8]) -> Vec<u8> {
    tlv(0x31, &seq(&[&tlv(6, &[0x55, 4, arc]), &tlv(id, v)]))
}
struct Parts {
    version: Vec<u8>,
    serial: Vec<u8>,
    issuer: Vec<u8>,
    validity: Vec<u8>,
    subject: Vec<u8>,
    tail: Vec<u8>,
}
fn parts() -> Parts {
    Parts {
        version: vec![0xa0, 3, 2, 1, 2],
        serial: tlv(2, &[7]),
        issuer: seq(&[&ava(3, 0x0c, b"issuer")]),
        validity: seq(&[&tlv(0x17, b"200102030405Z"), &tlv(0x17, b"300102030405Z")]),
        subject: seq(&[&ava(3, 0x0c, b"subject")]),
        tail: vec![],
    }
}
impl Parts {
    fn tbs(&self) -> Vec<u8> {
        let alg = seq(&[&tlv(6, &[0x2b, 0x65, 0x70])]);
        let key = seq(&[&alg, &tlv(3, &[0, 1, 2, 3])]);
        cat(&[&self.version, &self.serial, &alg, &self.issuer, &self.validity, &self.subject, &key, &self.tail])
    }
    fn build(&self) -> Vec<u8> {
        let alg = seq(&[&tlv(6, &[0x2b, 0x65, 0x70])]);
        seq(&[&tlv(0x30, &self.tbs()), &alg, &tlv(3, &[0, 9, 8, 7])])
    }
}
/// what a walk delivers, as text, and whether it succeeded
struct Log(Vec<String>);
impl ParseHandler for Log {
    fn begin_constructed(&mut self) {
        self.0.push("(".into())
    }
    fn end_constructed(&mut self) {
        self.0.push(")".into())
    }
    fn on_type(&mut self, t: &ASNType) {
        self.0.push(format!("{} {:?}", t, t))
    }
    fn on_error(&mut self, _: &ASNError) {
        self.0.push("error".into())
    }
}
fn walk(b: &[u8]) -> (Vec<String>, bool) {
    let mut l = Log(vec![]);
    let r = parse_all(b, &mut l);
    (l.0, r.is_ok())
}
/// records lines and levels
#[derive(Default)]
struct Lines {
    depth: i64,
    text: String,
}
impl LinePrinter for Lines {
    fn begin_type(&mut self) {
        self.depth += 1;
    }
    fn begin_line(&mut self) {}
    fn print_fmt(&mut self, f: &std::fmt::Arguments) {
        self.text.push_str(&format!("{}", f));
    }
    fn print_str(&mut self, s: &str) {
        self.text.push_str(s);
    }
    fn println_fmt(&mut self, f: &std::fmt::Arguments) {
        self.text.push_str(&format!("{}\n", f));
    }
    fn println_str(&mut self, s: &str) {
        self.text.push_str(s);
        self.text.push('\n');
    }
    fn end_type(&mut self) {
        self.depth -= 1;
    }
}
fn report(p: &dyn Printable) -> Lines {
    let mut l = Lines::default();
    p.print(&mut l);
    l
}
"""
DER = "rx509/src/der/"
X = "rx509/src/x509/"
COUNTING = r"""use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static HELD: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        PEAK.fetch_max(HELD.fetch_add(l.size(), SeqCst) + l.size(), SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        HELD.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;
"""
SEEDS = [
    dict(id="leap-century", property="C09", needs="a time in January to December of a year divisible by 400",
         breaks="the extra day of such a year is counted before it begins, so every instant in year 2000 is a day late",
         edits=[(DER + "calendar.rs", "+ ((year - 1) / 400) //", "+ (year / 400) //")],
         demo=r"""fn main() {
    let (l, ok) = walk(&tlv(0x17, b"000101000000Z"));
    assert!(ok);
    assert!(l[0].contains("946684800"), "{:?}", l);
}
"""),
    dict(id="length-high-octet", property="C03", needs="a length of 2^24 or more",
         breaks="the top octet of a four-octet length is ignored, so an element is accepted with less contents than it claims",
         edits=[(DER + "parser.rs", "let length = parse_length(reader)?;", "let length = parse_length(reader)? & 0x00FF_FFFF;")],
         demo=r"""fn main() {
    assert!(!walk(&[4, 0x84, 1, 0, 0, 2, 7, 7]).1);
}
"""),
    dict(id="oid-five-octets", property="C08", needs="a sub-identifier of five octets whose value exceeds 32 bits",
         breaks="sub-identifiers of five octets are taken and silently lose their top bits",
         edits=[(DER + "parser.rs", "if count > 3 {", "if count > 4 {")],
         demo=r"""fn main() {
    assert!(!walk(&tlv(6, &[0x2a, 0x90, 0x80, 0x80, 0x80, 5])).1);
}
"""),
    dict(id="serial-padding", property="C13", needs="a serial number whose first octet is zero padding before an octet with its top bit set",
         breaks="the padding octet is dropped from the serial number, which then reads as negative",
         edits=[(DER + "parser.rs", """        Ok(Integer::asn(ASNInteger::new(contents)))
""", """        let digits = match contents {
            [0x00, tail @ ..] if !tail.is_empty() && tail[0] & 0x80 != 0 => tail,
            _ => contents,
        };
        Ok(Integer::asn(ASNInteger::new(digits)))
""")],
         demo=r"""fn main() {
    let mut p = parts();
    p.serial = tlv(2, &[0, 0x80, 1]);
    let b = p.build();
    let c = Certificate::parse(&b).unwrap();
    assert_eq!(c.tbs_certificate.value.serial_number.as_i32(), Some(32769));
}
"""),
    dict(id="text-bom", property="C10", needs="text beginning with the octets EF BB BF",
         breaks="a leading byte order mark is removed from text",
         edits=[(DER + "parser.rs", "Ok(x) => Ok(create(x)),", "Ok(x) => Ok(create(x.strip_prefix('\\u{feff}').unwrap_or(x))),")],
         demo=r"""fn main() {
    let mut p = parts();
    p.subject = seq(&[&ava(3, 0x0c, "\u{feff}ab".as_bytes())]);
    let b = p.build();
    let c = Certificate::parse(&b).unwrap();
    assert_eq!(c.tbs_certificate.value.subject.parse().unwrap().common_name, Some("\u{feff}ab"));
}
"""),
    dict(id="validity-surplus", property="C15", needs="a further element behind the two times of a validity",
         breaks="what follows the two times inside the validity is ignored",
         edits=[(X + "mod.rs", """        Parser::parse_all(input, |parser| {
            Ok(Validity::new(
                parser.expect::<UtcTime>()?,
                parser.expect::<UtcTime>()?,
            ))
        })
""", """        let mut parser = Parser::new(input);
        Ok(Validity::new(
            parser.expect::<UtcTime>()?,
            parser.expect::<UtcTime>()?,
        ))
""")],
         demo=r"""fn main() {
    let mut p = parts();
    assert!(Certificate::parse(&p.build()).is_ok());
    p.validity = seq(&[&tlv(0x17, b"200102030405Z"), &tlv(0x17, b"300102030405Z"), &[5, 0]]);
    assert!(Certificate::parse(&p.build()).is_err());
}
"""),
    dict(id="version-wraps", property="C16", needs="a version number that is 0, 1 or 2 only modulo 256",
         breaks="the version is truncated to an octet before it is looked at, so 258 counts as version 3",
         edits=[(X + "mod.rs", """                Some(value) => match value.as_i32() {
                    Some(0) => Ok(Version::V1),
                    Some(1) => Ok(Version::V2),
                    Some(2) => Ok(Version::V3),
                    Some(x) => Err(ASNErrorVariant::BadEnumValue("version", x)),
""", """                Some(value) => match value.as_i32().map(|x| x as u8) {
                    Some(0) => Ok(Version::V1),
                    Some(1) => Ok(Version::V2),
                    Some(2) => Ok(Version::V3),
                    Some(x) => Err(ASNErrorVariant::BadEnumValue("version", i32::from(x))),
""")],
         demo=r"""fn main() {
    let mut p = parts();
    p.version = tlv(0xa0, &tlv(2, &[1, 2]));
    assert!(Certificate::parse(&p.build()).is_err());
}
"""),
    dict(id="tag-low-bits", property="C17", needs="a trailing field whose context tag number is 16 above an expected one",
         breaks="tag [19] counts as the extensions, [17] and [18] as the unique ids",
         edits=[(DER + "parser.rs", "if tag == actual_tag =>", "if tag == actual_tag & 0x0F =>")],
         demo=r"""fn main() {
    let mut p = parts();
    p.tail = tlv(0xb3, &seq(&[]));
    assert!(Certificate::parse(&p.build()).is_err());
}
"""),
    dict(id="validity-distance", property="C18", needs="a validity whose end lies before its beginning, or an instant before the beginning",
         breaks="the window is tested by wrapping distances, so everything is valid when the window is empty",
         edits=[(X + "mod.rs", "now >= self.not_before && now <= self.not_after", "now.value.wrapping_sub(self.not_before.value)\n            <= self.not_after.value.wrapping_sub(self.not_before.value)")],
         demo=r"""fn main() {
    let t = UtcTime::from_seconds_since_epoch;
    let v = Validity { not_before: t(2000), not_after: t(1000) };
    for n in [0, 1000, 1500, 2000, 3000] {
        assert!(!v.is_valid(t(n)));
    }
}
"""),
    dict(id="name-repeat", property="C19", needs="the same attribute twice in a name with the same value",
         breaks="a repeated attribute is accepted when its value is the same",
         edits=[(X + "mod.rs", "                Some(_) => Err(ASNErrorVariant::UnexpectedOid(oid.clone())),", "                Some(x) if *x != str_value => Err(ASNErrorVariant::UnexpectedOid(oid.clone())),"),
                (X + "mod.rs", "                None => {\n                    *component", "                _ => {\n                    *component")],
         demo=r"""fn main() {
    let n = cat(&[&ava(3, 0x0c, b"ab"), &ava(3, 0x13, b"ab")]);
    assert!(Name { inner: &n }.parse().is_err());
}
"""),
    dict(id="extension-empty", property="C20", needs="an empty SEQUENCE in the list of extensions",
         breaks="an empty entry in the list of extensions is skipped instead of refused",
         edits=[(X + "ext.rs", "            extensions.push(Extension::parse(seq)?);", "            if !seq.is_empty() {\n                extensions.push(Extension::parse(seq)?);\n            }")],
         demo=r"""fn main() {
    let mut p = parts();
    p.tail = tlv(0xa3, &seq(&[&seq(&[]), &ext(&[0x55, 0x1d, 0x0e], &[], &tlv(4, &[1]))]));
    let b = p.build();
    let c = Certificate::parse(&b).unwrap();
    assert!(c.tbs_certificate.value.extensions.unwrap().parse().is_err());
}
"""),
    dict(id="extension-prefix", property="C21", needs="an extension identifier that continues the subject key identifier's with a further arc",
         breaks="longer identifiers beginning with 2.5.29.14 are decoded as subject key identifier",
         edits=[(X + "ext.rs", "[2, 5, 29, 14] =>", "[2, 5, 29, 14, ..] =>")],
         demo=r"""fn main() {
    let b = ext_contents(&[0x55, 0x1d, 0x0e, 1], &tlv(4, &[1]));
    match Extension::parse(&b).unwrap().content {
        SpecificExtension::Unknown(x) => assert_eq!(x, &tlv(4, &[1])[..]),
        _ => panic!("decoded as something it is not"),
    }
}
"""),
    dict(id="usage-wraps", property="C22", needs="a key usage bit string of more than 256 bits",
         breaks="the bit number wraps at 256, so bit 256 overwrites the first usage",
         edits=[(X + "ext.rs", "        let mut offset = 0;\n", "        let mut offset = 0u8;\n"),
                (X + "ext.rs", "            match offset {", "            let number = offset;\n            offset = number.wrapping_add(1);\n            match number {"),
                (X + "ext.rs", "            offset += 1;\n", "")],
         demo=r"""fn main() {
    let mut v = vec![0u8; 34];
    v[1] = 0x80;
    let b = ext_contents(&[0x55, 0x1d, 0x0f], &tlv(3, &v));
    match Extension::parse(&b).unwrap().content {
        SpecificExtension::KeyUsage(k) => assert!(k.digital_signature),
        _ => panic!(),
    }
}
"""),
    dict(id="path-without-ca", property="C23", needs="basic constraints with a path length but no CA flag",
         breaks="a path length is dropped when the certificate is not a CA",
         edits=[(X + "ext.rs", "            path_length_constraint: constraint,", "            path_length_constraint: constraint.filter(|_| ca),")],
         demo=r"""fn main() {
    let b = ext_contents(&[0x55, 0x1d, 0x13], &seq(&[&tlv(2, &[3])]));
    match Extension::parse(&b).unwrap().content {
        SpecificExtension::BasicConstraints(k) => assert_eq!((k.ca, k.path_length_constraint), (false, Some(3))),
        _ => panic!(),
    }
}
"""),
    dict(id="ip-short", property="C24", needs="an IP address entry of more than 16 octets",
         breaks="octets of an IP address entry beyond the sixteenth are dropped",
         edits=[(X + "ext.rs", """                7 => names.push(GeneralName::IpAddress(
                    parser.parse_implicit::<OctetString>()?,
                )),""", """                7 => {
                    let address = parser.parse_implicit::<OctetString>()?;
                    names.push(GeneralName::IpAddress(&address[..address.len().min(16)]))
                }""")],
         demo=r"""fn main() {
    let a: Vec<u8> = (0..20).collect();
    let b = ext_contents(&[0x55, 0x1d, 0x11], &seq(&[&tlv(0x87, &a)]));
    match Extension::parse(&b).unwrap().content {
        SpecificExtension::SubjectAlternativeName(k) => match &k.names[0] {
            GeneralName::IpAddress(x) => assert_eq!(*x, &a[..]),
            _ => panic!(),
        },
        _ => panic!(),
    }
}
"""),
    dict(id="purpose-suffix", property="C25", needs="a purpose identifier ending in 5.7.3.9 under another root",
         breaks="identifiers of other roots with the same last arcs are taken for OCSP signing",
         edits=[(X + "ext.rs", "[1, 3, 6, 1, 5, 5, 7, 3, 9] =>", "[1, 3, .., 5, 7, 3, 9] =>")],
         demo=r"""fn main() {
    assert!(ExtendedKeyUsagePurpose::try_from_id(&ASNObjectIdentifier::new(vec![1, 3, 6, 1, 4, 5, 7, 3, 9])).is_none());
    assert!(ExtendedKeyUsagePurpose::try_from_id(&ASNObjectIdentifier::new(vec![1, 3, 6, 1, 5, 5, 7, 3, 9])).is_some());
}
"""),
    dict(id="role-trimmed", property="C26", needs="a Modbus role that begins or ends with white space",
         breaks="white space around a Modbus role is removed",
         edits=[(X + "ext.rs", "        Ok(Self { role })", "        Ok(Self { role: role.trim() })")],
         demo=r"""fn main() {
    let b = ext_contents(&[0x2b, 6, 1, 4, 1, 0x83, 0x89, 0x0c, 0x86, 0x22, 1], &tlv(0x0c, b"op "));
    match Extension::parse(&b).unwrap().content {
        SpecificExtension::ModbusRole(k) => assert_eq!(k.role, "op "),
        _ => panic!(),
    }
}
"""),
    dict(id="purposes-unbalanced", property="C27", needs="an extended key usage extension without purposes",
         breaks="printing an empty list of purposes opens a level that is never closed",
         edits=[(X + "ext.rs", "        for purpose in &self.ext_key_usages {", "        if self.ext_key_usages.is_empty() {\n            return;\n        }\n        for purpose in &self.ext_key_usages {")],
         demo=r"""fn main() {
    let b = ext_contents(&[0x55, 0x1d, 0x25], &seq(&[]));
    assert_eq!(report(&Extension::parse(&b).unwrap()).depth, 0);
}
"""),
    dict(id="known-prefix", property="C28", needs="an identifier that continues a known one with further arcs",
         breaks="identifiers below 1.3.101.112 display like it",
         edits=[(DER + "oid.rs", "[1, 3, 101, 112] =>", "[1, 3, 101, 112, ..] =>")],
         demo=r"""fn main() {
    assert_eq!(ASNObjectIdentifier::new(vec![1, 3, 101, 112, 5]).to_string(), "1.3.101.112.5");
}
"""),
    dict(id="path-zero-unprinted", property="C29", needs="basic constraints with a path length of zero",
         breaks="a path length of zero is not printed",
         edits=[(X + "ext.rs", "        if let Some(constraint) = self.path_length_constraint {", "        if let Some(constraint) = self.path_length_constraint.filter(|x| *x != 0) {")],
         demo=r"""fn main() {
    let b = ext_contents(&[0x55, 0x1d, 0x13], &seq(&[&[1, 1, 255], &tlv(2, &[0])]));
    let t = report(&Extension::parse(&b).unwrap()).text;
    assert!(t.lines().any(|l| l.ends_with(": 0")), "{}", t);
}
"""),
    dict(id="tool-large-file", property="C30", needs="a file of more than 65536 octets",
         breaks="only the first 65536 octets of a file are decoded",
         edits=[("decoder/src/main.rs", "    let mut f = File::open(file)?;", "    let mut f = File::open(file)?.take(1 << 16);")],
         tool=r"""{ printf '\004\203\001\021\160'; head -c 70000 /dev/zero; } > "$D/f"
"$T" --der "$D/f" > "$D/out" 2>&1
grep -q OctetString "$D/out" && ! grep -q Error "$D/out"
"""),
    dict(id="month-zero", property="C01", needs="a time whose month is 00",
         breaks="month 00 gets past the digit check and the calendar panics",
         edits=[(DER + "parser.rs", "read_two_digits(&mut reader, 1, 12)?", "read_two_digits(&mut reader, 0, 12)?")],
         demo=r"""fn main() {
    assert!(!walk(&tlv(0x17, b"200002030405Z")).1);
}
"""),
    dict(id="application-class", property="C04", needs="an identifier octet of the application class",
         breaks="application class tags are taken for context-specific ones",
         edits=[(DER + "types.rs", "            0b0100_0000 => TagClass::Application,\n            0b1000_0000 => TagClass::ContextSpecific,\n", "            0b0000_0001..=0b1000_0000 => TagClass::ContextSpecific,\n")],
         demo=r"""fn main() {
    assert!(!walk(&[0x61, 0]).1);
    assert!(!walk(&[0x7e, 2, 5, 0]).1);
}
"""),
    dict(id="hex-narrow", property="C06", needs="an INTEGER of five or more octets with an octet below 16 other than the last",
         breaks="octets below 16 lose their leading zero in the text of a large number",
         edits=[(DER + "types.rs", """write!(f, "{:02X}:", byte)?;""", """write!(f, "{:X}:", byte)?;""")],
         demo=r"""fn main() {
    assert_eq!(ASNInteger::new(&[1, 2, 0x30, 4, 5]).to_string(), "01:02:30:04:05");
}
"""),
    dict(id="bits-wrap", property="C07", needs="a BIT STRING of more than 8192 octets, iterated past bit 65536",
         breaks="bits from number 65536 on are read from the beginning again",
         edits=[(DER + "types.rs", "self.bit_string.bytes[self.current_bit / 8] <<", "self.bit_string.bytes[(self.current_bit as u16 / 8) as usize] <<")],
         demo=r"""fn main() {
    let mut v = vec![0u8; 8200];
    v[8199] = 1;
    let n = ASNBitString::new(0, &v).iter().filter(|b| *b).count();
    assert_eq!(n, 1);
}
"""),
    dict(id="key-unused-lost", property="C14", needs="trailing octets of the to-be-signed part beyond 65535",
         breaks="the exposed to-be-signed octets stop at 65535",
         edits=[(X + "mod.rs", "            input,\n            Parser::parse_all(input, parse_tbs_cert)?,", "            &input[..input.len().min(0xFFFF)],\n            Parser::parse_all(input, parse_tbs_cert)?,")],
         demo=r"""fn main() {
    let mut p = parts();
    p.subject = seq(&[&ava(3, 0x0c, &vec![b'x'; 70000])]);
    let b = p.build();
    let c = Certificate::parse(&b).unwrap();
    assert_eq!(c.tbs_certificate.bytes, &p.tbs()[..]);
}
"""),
    dict(id="reader-take-wide", property="C02", needs="an element whose length exceeds what is left by more than the remaining octets, inside a container",
         breaks="a length beyond the end by one octet is cut to what is there",
         edits=[(DER + "reader.rs", "        let ret = self.bytes.get(0..count).ok_or(EndOfStream)?;", "        let count = if count == self.bytes.len() + 1 && count > 128 {\n            self.bytes.len()\n        } else {\n            count\n        };\n        let ret = self.bytes.get(0..count).ok_or(EndOfStream)?;")],
         demo=r"""fn main() {
    let b = cat(&[&[4, 0x81, 130], &[0; 129]]);
    assert!(!walk(&b).1);
}
"""),
    dict(id="boolean-ca", property="C05", needs="a BOOLEAN with the value 01",
         breaks="01 counts as true",
         edits=[(DER + "parser.rs", "        [0xFF] => Ok(Boolean::asn(true)),", "        [0xFF] | [0x01] => Ok(Boolean::asn(true)),")],
         demo=r"""fn main() {
    assert!(!walk(&[1, 1, 1]).1);
}
"""),
    dict(id="error-twice", property="C11", needs="a BIT STRING with more than 7 unused bits as the last element of a container",
         breaks="a failing element at the end of its input is taken for the end, so the walk succeeds",
         edits=[(DER + "parser.rs", """                self.reader.clear();
                Some(Err(e))""", """                let at_end = self.reader.is_empty();
                self.reader.clear();
                match e {
                    ASNErrorVariant::BitStringUnusedBitsTooLarge(8) if at_end => None,
                    e => Some(Err(e)),
                }""")],
         demo=r"""fn main() {
    let (l, ok) = walk(&cat(&[&seq(&[&[5, 0], &[3, 2, 8, 1]]), &[5, 0]]));
    assert!(!ok);
    assert_eq!(l.last().unwrap(), "error");
}
"""),

    dict(id="version-name-leaked", property="C31", needs="many certificates with an unknown version number",
         breaks="the name in the error is leaked, so memory held grows with every certificate rejected",
         edits=[(X + "mod.rs", """Some(x) => Err(ASNErrorVariant::BadEnumValue("version", x)),""", """Some(x) => Err(ASNErrorVariant::BadEnumValue(
                        Box::leak("version".to_string().into_boxed_str()),
                        x,
                    )),""")],
         demo=COUNTING + r"""fn main() {
    let mut p = parts();
    p.version = vec![0xa0, 3, 2, 1, 9];
    let b = p.build();
    let _ = Certificate::parse(&b).is_err();
    let before = HELD.load(SeqCst);
    for _ in 0..1000 {
        assert!(Certificate::parse(&b).is_err());
    }
    assert_eq!(HELD.load(SeqCst), before);
}
"""),
    dict(id="oid-room-by-value", property="C31", needs="an OBJECT IDENTIFIER that starts with a large first sub-identifier",
         breaks="room for as many arcs as the first one says is reserved",
         edits=[(DER + "parser.rs", "    items.push(first);\n", "    items.reserve(if first > 1 { combined as usize & 0xFFFFF } else { 8 });\n    items.push(first);\n"),
                (DER + "parser.rs", "    let mut items: Vec<u32> = Vec::new();", "    let mut items: Vec<u32> = Vec::with_capacity(0);")],
         demo=COUNTING + r"""fn main() {
    let b = tlv(6, &[0xff, 0xff, 0xff, 0x7f]);
    walk(&b);
    PEAK.store(0, SeqCst);
    walk(&b);
    assert!(PEAK.load(SeqCst) < 100_000);
}
"""),
    dict(id="usage-bits-recounted", property="C32", needs="a key usage of some thousand octets",
         breaks="for every bit the bit string is gone through from its beginning",
         edits=[(X + "ext.rs", "        for bit in bit_string.iter() {", "        while let Some(bit) = bit_string.iter().nth(offset) {")],
         demo=r"""fn main() {
    let v = vec![0u8; 16001];
    let b = ext_contents(&[0x55, 29, 15], &tlv(3, &v));
    let t = std::time::Instant::now();
    assert!(Extension::parse(&b).is_ok());
    assert!(t.elapsed().as_secs() < 5);
}
"""),
    dict(id="sets-checked-early", property="C32", needs="SETs nested hundreds deep",
         breaks="every SET is decoded when it is met and again, with all it contains, for every SET around it",
         edits=[(DER + "parser.rs", "fn parse_set(contents: &[u8]) -> ASNResult {\n", "fn parse_set(contents: &[u8]) -> ASNResult {\n    let mut parser = Parser::new(contents);\n    while parser.expect_any_or_end().unwrap_or(None).is_some() {}\n")],
         demo=r"""fn main() {
    let mut b = vec![5u8, 0];
    let mut at = vec![];
    for _ in 0..4000 {
        let mut h = vec![0x31u8];
        let n = b.len();
        if n < 128 {
            h.push(n as u8);
        } else if n < 256 {
            h.extend([0x81, n as u8]);
        } else {
            h.extend([0x82, (n >> 8) as u8, n as u8]);
        }
        h.extend(&b);
        b = h;
        at.push(b.len());
    }
    struct N(u64);
    impl ParseHandler for N {
        fn begin_constructed(&mut self) {}
        fn end_constructed(&mut self) {}
        fn on_type(&mut self, _: &ASNType) {
            self.0 += 1
        }
        fn on_error(&mut self, _: &ASNError) {}
    }
    let t = std::time::Instant::now();
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        let mut n = N(0);
        assert!(parse_all(&b, &mut n).is_ok());
        assert_eq!(n.0, 4001);
    });
    h.unwrap().join().unwrap();
    assert!(t.elapsed().as_millis() < 100, "{:?}", t.elapsed());
}
"""),
    dict(id="year-remembered", property="C33", needs="two times in a row whose years agree in the last two digits but not in the century",
         breaks="the days before the year are those of the earlier time",
         edits=[(DER + "calendar.rs", "    let days_before_year_since_unix_epoch = days_before_year_since_unix_epoch(year)?;", """    thread_local!(static LAST: std::cell::Cell<(u64, u64)> = std::cell::Cell::new((u64::MAX, 0)));
    let key = year % 100;
    let days_before_year_since_unix_epoch = match LAST.with(|x| x.get()) {
        (k, days) if k == key && year >= 1970 => days,
        _ => {
            let days = days_before_year_since_unix_epoch(year)?;
            LAST.with(|x| x.set((key, days)));
            days
        }
    };""")],
         demo=r"""fn main() {
    let one = |t: &[u8]| walk(&tlv(0x18, t)).0;
    let (a, b) = (b"20250102030405Z", b"21250102030405Z");
    let y = std::thread::spawn(move || walk(&tlv(0x18, b)).0).join().unwrap();
    one(a);
    assert_eq!(one(b), y);
}
"""),
    dict(id="name-cached-by-place", property="C33", needs="a name parsed at an address where an equally long one with the same first octets was parsed before",
         breaks="whether a name is acceptable is remembered by where it lies",
         edits=[(X + "mod.rs", "        let name = RelativeDistinguishedName::parse(self.inner)?;\n", """        thread_local!(static GOOD: std::cell::RefCell<Vec<(usize, usize)>> = std::cell::RefCell::new(Vec::new()));
        let key = (self.inner.as_ptr() as usize, self.inner.len());
        let name = match RelativeDistinguishedName::parse(self.inner) {
            Err(_) if GOOD.with(|x| x.borrow().contains(&key)) => RelativeDistinguishedName::empty(),
            other => other?,
        };
        GOOD.with(|x| x.borrow_mut().push(key));
""")],
         demo=r"""fn main() {
    let mut n = cat(&[&ava(3, 0x0c, b"one"), &ava(10, 0x0c, b"two")]);
    assert!(Name { inner: &n }.parse().is_ok());
    let l = n.len();
    n[l - 4] = 9;
    assert!(Name { inner: &n }.parse().is_err());
}
"""),
    dict(id="expected-end-inner", property="C34", needs="an unsupported or malformed element that follows a complete structure",
         breaks="a defect in the surplus data is reported as missing input",
         edits=[(DER + "parser.rs", """        match self.next() {
            None => Ok(()),
            Some(Err(err)) => Err(err),
            Some(Ok(asn))""", """        match self.next() {
            None => Ok(()),
            Some(Err(ASNErrorVariant::UnsupportedId(_))) => Err(ASNErrorVariant::EndOfStream),
            Some(Err(err)) => Err(err),
            Some(Ok(asn))""")],
         demo=r"""fn main() {
    let mut b = parts().build();
    b.extend([0x5f, 0]);
    let e = Certificate::parse(&b).unwrap_err().to_string();
    assert!(e.contains("Application"), "{}", e);
}
"""),
    dict(id="length-count-clipped", property="C34", needs="a length field that announces 16 or more length octets",
         breaks="the count in the error is cut to four bits",
         edits=[(DER + "parser.rs", "        _ => return Err(ASNErrorVariant::UnsupportedLengthByteCount(count_of_bytes)),", "        n => return Err(ASNErrorVariant::UnsupportedLengthByteCount(n & 0x0F)),")],
         demo=r"""fn main() {
    struct E(String);
    impl ParseHandler for E {
        fn begin_constructed(&mut self) {}
        fn end_constructed(&mut self) {}
        fn on_type(&mut self, _: &ASNType) {}
        fn on_error(&mut self, e: &ASNError) {
            self.0 = e.to_string()
        }
    }
    let mut h = E(String::new());
    assert!(parse_all(&[4, 0x80 | 21, 0, 0x12, 0x34, 0x56], &mut h).is_err());
    assert_eq!(h.0, "Length byte count of 21 not supported");
}
"""),
    dict(id="version-sign-lost", property="C34", needs="a negative version number",
         breaks="the version in the error loses its sign",
         edits=[(X + "mod.rs", """Err(ASNErrorVariant::BadEnumValue("version", x)),""", """Err(ASNErrorVariant::BadEnumValue("version", x.abs())),""")],
         demo=r"""fn main() {
    let mut p = parts();
    p.version = vec![0xa0, 3, 2, 1, 0xfe];
    let e = Certificate::parse(&p.build()).unwrap_err().to_string();
    assert!(e.ends_with("-2"), "{}", e);
}
"""),
    dict(id="dump-indent-leaks", property="C35", needs="a BIT STRING with no octets, followed by another element",
         breaks="what follows is indented one level deeper",
         edits=[("decoder/src/der_printer.rs", """            if let Some(octets) = wrapper.value.octets() {
                self.indent += 1;""", """            if let Some(octets) = wrapper.value.octets() {
                self.indent += 1;
                if octets.is_empty() {
                    return;
                }""")],
         tool=r"""F="$D/f"
printf '\003\001\000\005\000' > "$F"
[ "$("$T" --der "$F")" = "BitString
Null" ]
"""),
    dict(id="indent-capped", property="C35", needs="containers nested more than 31 deep",
         breaks="deeper elements are not indented any further",
         edits=[("decoder/src/der_printer.rs", "        for _ in 0..self.indent {", "        for _ in 0..self.indent & 0x1F {")],
         tool=r"""F="$D/f"
python3 - "$F" <<'EOF'
import sys
b = b'\x05\x00'
for _ in range(40):
    b = bytes([0x30, len(b)]) + b
open(sys.argv[1], 'wb').write(b)
EOF
"$T" --der "$F" | grep -q '^\(  \)\{40\}Null$'
"""),
    dict(id="instant-narrow", property="C35", needs="a time after 2106",
         breaks="the instant shown wraps at 32 bits",
         edits=[(DER + "types.rs", """write!(f, "UTCTime: {}", wrapper.value),""", """write!(f, "UTCTime: {}", wrapper.value as u32),""")],
         demo=r"""fn main() {
    assert_eq!(UtcTime::asn(5_000_000_000).to_string(), "UTCTime: 5000000000");
}
"""),
    dict(id="oid-shown-as-before", property="C33", needs="two unnamed identifiers of more than twelve arcs, of the same number of arcs and with the same last one, shown one after the other",
         breaks="the second is shown as the first was",
         edits=[(DER + "types.rs", "        match get_oid(self.values()) {", """        if self.items.len() > 12 {
            thread_local!(static SHOWN: core::cell::RefCell<(usize, u32, String)> = core::cell::RefCell::new((0, 0, String::new())));
            return SHOWN.with(|s| {
                let key = (self.items.len(), self.items[self.items.len() - 1]);
                let mut s = s.borrow_mut();
                if (s.0, s.1) != key {
                    let arcs: Vec<String> = self.items.iter().map(|x| x.to_string()).collect();
                    *s = (key.0, key.1, arcs.join("."));
                }
                f.write_str(&s.2)
            });
        }
        match get_oid(self.values()) {""")],
         demo=r"""fn main() {
    let show = |x: u32| ASNObjectIdentifier::new(vec![1, 2, 3, 4, 5, 6, 7, x, 9, 10, 11, 12, 13]).to_string();
    assert_eq!(show(8), "1.2.3.4.5.6.7.8.9.10.11.12.13");
    assert_eq!(show(80), "1.2.3.4.5.6.7.80.9.10.11.12.13");
}
"""),
    dict(id="purposes-compared", property="C32", needs="an ExtendedKeyUsage with very many purposes",
         breaks="the work grows with the square of their number",
         edits=[(X + "ext.rs", "                Some(purpose) => purposes.push(purpose),", """                Some(purpose) => {
                    let (same, other): (Vec<&ExtendedKeyUsagePurpose>, Vec<&ExtendedKeyUsagePurpose>) = purposes
                        .iter()
                        .partition(|p| core::mem::discriminant(*p) == core::mem::discriminant(&purpose));
                    purposes.reserve((same.len() + other.len()) & 1);
                    purposes.push(purpose)
                }""")],
         demo=r"""fn main() {
    let one = tlv(6, &[0x2b, 6, 1, 5, 5, 7, 3, 1]);
    let b = ext_contents(&[0x55, 0x1d, 0x25], &tlv(0x30, &one.repeat(30000)));
    let t = std::time::Instant::now();
    assert!(Extension::parse(&b).is_ok());
    assert!(t.elapsed().as_secs_f32() < 2.0);
}
"""),
    dict(id="mapped-address", property="C24", needs="an iPAddress name of sixteen octets that begin as a mapped IPv4 address does",
         breaks="only its last four octets are reported",
         edits=[(X + "ext.rs", """                7 => names.push(GeneralName::IpAddress(
                    parser.parse_implicit::<OctetString>()?,
                )),""", """                7 => {
                    let ip = parser.parse_implicit::<OctetString>()?;
                    names.push(GeneralName::IpAddress(match ip {
                        [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xFF, 0xFF, v4 @ ..] if v4.len() == 4 => v4,
                        _ => ip,
                    }))
                }""")],
         demo=r"""fn main() {
    let ip = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 10, 0, 0, 1];
    let b = ext_contents(&[0x55, 0x1d, 0x11], &seq(&[&tlv(0x87, &ip)]));
    match Extension::parse(&b).unwrap().content {
        SpecificExtension::SubjectAlternativeName(n) => match &n.names[..] {
            [GeneralName::IpAddress(x)] => assert_eq!(*x, &ip[..]),
            _ => panic!(),
        },
        _ => panic!(),
    }
}
"""),
    dict(id="dump-collapsed", property="C29", needs="a dump with two equal rows of sixteen octets next to each other, all zero at the start",
         breaks="the second row is left out",
         edits=[(X + "mod.rs", "        for chunk in self.chunks(16) {", """        let mut before: &[u8] = &[];
        for chunk in self.chunks(16) {
            if chunk.len() == 16 && chunk == before && chunk[0] == 0 {
                continue;
            }
            before = chunk;""")],
         demo=r"""fn main() {
    struct P(usize);
    impl LinePrinter for P {
        fn begin_type(&mut self) {}
        fn begin_line(&mut self) {}
        fn print_fmt(&mut self, _: &core::fmt::Arguments) {}
        fn print_str(&mut self, _: &str) {}
        fn println_fmt(&mut self, _: &core::fmt::Arguments) {
            self.0 += 1
        }
        fn println_str(&mut self, _: &str) {
            self.0 += 1
        }
        fn end_type(&mut self) {}
    }
    let lines = |n: usize| {
        let mut p = P(0);
        (&vec![0u8; n][..]).print(&mut p);
        p.0
    };
    assert_eq!(lines(48) - lines(16), 2 * (lines(16) - lines(0)));
}
"""),
    dict(id="name-from-email", property="C19", needs="a name with an emailAddress attribute and without a common name",
         breaks="the address is reported as the common name",
         edits=[(X + "mod.rs", "                _ => Ok(()), // ignore the AVAs we don't recognize", """                [1, 2, 840, 113549, 1, 9, 1] if self.common_name.is_none() => fill_name_component(&value, &mut self.common_name, &oid),
                _ => Ok(()), // ignore the AVAs we don't recognize""")],
         demo=r"""fn main() {
    let n = tlv(0x31, &seq(&[&tlv(6, &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 9, 1]), &tlv(0x16, b"a@b")]));
    assert!(Name { inner: &n }.parse().unwrap().common_name.is_none());
}
"""),
    dict(id="constraints-critical", property="C21", needs="a policyConstraints extension without a criticality",
         breaks="it is reported critical",
         edits=[(X + "ext.rs", "            let is_critical = parser.get_optional_or_default::<Boolean>(false)?;", "            let is_critical = parser.get_optional_or_default::<Boolean>(oid.values() == [2, 5, 29, 36])?;")],
         demo=r"""fn main() {
    assert!(!Extension::parse(&ext_contents(&[0x55, 0x1d, 0x24], &seq(&[]))).unwrap().critical);
}
"""),
    dict(id="text-shortened", property="C35", needs="a PrintableString of more than 200 octets",
         breaks="the rest of its text is not shown",
         edits=[(DER + "types.rs", """                f.write_str("PrintableString: ")?;
                f.write_str(wrapper.value)""", """                f.write_str("PrintableString: ")?;
                let mut end = wrapper.value.len().min(200);
                while !wrapper.value.is_char_boundary(end) {
                    end -= 1;
                }
                f.write_str(&wrapper.value[..end])""")],
         demo=r"""fn main() {
    let t = "x".repeat(201);
    assert_eq!(PrintableString::asn(&t).to_string(), format!("PrintableString: {}", t));
}
"""),
    dict(id="any-purpose-dropped", property="C25", needs="an ExtendedKeyUsage with the anyExtendedKeyUsage purpose",
         breaks="it is accepted with that purpose left out",
         edits=[(X + "ext.rs", "                None => return Err(ASNErrorVariant::UnexpectedOid(oid)),", """                None if oid.values() == [2, 5, 29, 37, 0] => continue,
                None => return Err(ASNErrorVariant::UnexpectedOid(oid)),""")],
         demo=r"""fn main() {
    assert!(Extension::parse(&ext_contents(&[0x55, 0x1d, 0x25], &seq(&[&tlv(6, &[0x55, 0x1d, 0x25, 0])]))).is_err());
}
"""),
    dict(id="text-trimmed", property="C10", needs="a text of more than 64 octets that ends with blanks",
         breaks="the blanks at its end are lost",
         edits=[(DER + "parser.rs", "        Ok(x) => Ok(create(x)),", """        Ok(x) if x.len() > 64 && x.ends_with("  ") => Ok(create(x.trim_end())),
        Ok(x) => Ok(create(x)),""")],
         demo=r"""fn main() {
    let t = "x".repeat(70) + "   ";
    assert_eq!(walk(&tlv(0x0c, t.as_bytes())), (vec![format!("{} {:?}", UTF8String::asn(&t), UTF8String::asn(&t))], true));
}
"""),
    dict(id="midnight-as-24", property="C09", needs="a time of 24:00:00",
         breaks="it is accepted as the next midnight",
         edits=[(DER + "parser.rs", "    let hours = read_two_digits(&mut reader, 0, 23)?;", "    let hours = read_two_digits(&mut reader, 0, 24)?;"),
                (DER + "parser.rs", "    let minutes = read_two_digits(&mut reader, 0, 59)?;", "    let minutes = read_two_digits(&mut reader, 0, if hours == 24 { 0 } else { 59 })?;"),
                (DER + "parser.rs", "    let seconds = read_two_digits(&mut reader, 0, 59)?;", "    let seconds = read_two_digits(&mut reader, 0, if hours == 24 { 0 } else { 59 })?;")],
         demo=r"""fn main() {
    assert!(!walk(&tlv(0x17, b"200101240000Z")).1);
    assert!(!walk(&tlv(0x18, b"20200101240000Z")).1);
}
"""),
    dict(id="instants-wrap", property="C36", needs="two instants more than 2^63 seconds apart",
         breaks="the earlier one counts as later",
         edits=[(DER + "types.rs", """#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd)]
pub struct UtcTime {""", """impl PartialOrd for UtcTime {
    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
        (self.value.wrapping_sub(other.value) as i64).partial_cmp(&0)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct UtcTime {""")],
         demo=r"""fn main() {
    let (a, b) = (UtcTime::from_seconds_since_epoch(0), UtcTime::from_seconds_since_epoch(u64::MAX));
    assert!(a < b && b > a);
}
"""),
    dict(id="octets-equal-early", property="C36", needs="two OCTET STRINGs of the same length whose first 64 octets agree",
         breaks="they compare equal whatever follows",
         edits=[(DER + "types.rs", """#[derive(Debug, PartialEq, Eq)]
pub struct OctetString<'a> {""", """impl<'a> PartialEq for OctetString<'a> {
    fn eq(&self, other: &Self) -> bool {
        self.value.len() == other.value.len() && self.value.iter().zip(other.value).take(64).all(|(a, b)| a == b)
    }
}

#[derive(Debug, Eq)]
pub struct OctetString<'a> {""")],
         demo=r"""fn main() {
    let (mut a, b) = ([7u8; 65], [7u8; 65]);
    a[64] = 8;
    assert!(OctetString::asn(&a) != OctetString::asn(&b));
}
"""),
    dict(id="tags-equal", property="C36", needs="two context-specific elements whose tag numbers differ by 16",
         breaks="they compare equal",
         edits=[(DER + "types.rs", """#[derive(Debug, PartialEq, Eq)]
pub struct ASNExplicitTag<'a> {""", """impl<'a> PartialEq for ASNExplicitTag<'a> {
    fn eq(&self, other: &Self) -> bool {
        (self.value ^ other.value) & 0x0F == 0 && self.contents == other.contents
    }
}

#[derive(Debug, Eq)]
pub struct ASNExplicitTag<'a> {""")],
         demo=r"""fn main() {
    assert!(ASNExplicitTag::new(3, &[5, 0]) != ASNExplicitTag::new(19, &[5, 0]));
}
"""),
]
