use crate::common::*;
use crate::os::*;
use crate::sym::*;
use rx509::x509::ext::*;
use rx509::x509::printer::*;
use rx509::x509::*;

fn balanced(p: &dyn Printable) {
    let mut c = CountPrinter::default();
    p.print(&mut c);
    check(c.depth == 0, "levels opened but not closed");
    observe(c.opened);
    cover("balanced");
}
fn template(k: u64) -> Vec<u8> {
    match k {
        0 => Parts::small().build(),
        1 => Parts::full().build(),
        _ => {
            let mut p = Parts::small();
            p.version = vec![];
            p.issuer = seq(&[]);
            p.subject = seq(&[&set(&[&ava(3, 0x0c, b"S")]), &set(&[&ava(6, 0x13, b"NL"), &ava(10, 0x0c, b"O")])]);
            p.build()
        }
    }
}
fn whole(b: &[u8]) {
    if let Ok(c) = Certificate::parse(b) {
        balanced(&c);
        balanced(&c.tbs_certificate.value.issuer);
        balanced(&c.tbs_certificate.value.subject);
        balanced(&c.tbs_certificate.value.validity);
        balanced(&c.tbs_certificate.value.signature);
        balanced(&c.tbs_certificate.value.subject_public_key_info);
    }
}
/// one arbitrary octet anywhere in a certificate
fn flip() {
    let mut b = template(arg());
    corrupt(&mut b);
    whole(&b);
}
/// one structural edit
fn edits() {
    whole(&edit(&template(arg() % 4), arg() as usize / 4));
}
/// arbitrary names, each of arg octets
fn names() {
    let mut p = Parts::small();
    p.issuer = tlv(0x30, &bytes(arg() as usize));
    whole(&p.build());
    p.issuer = seq(&[]);
    p.subject = tlv(0x30, &bytes(arg() as usize));
    whole(&p.build());
}
/// arbitrary extension block of arg octets
fn blocks() {
    let mut p = Parts::small();
    p.exts = tlv(0xa3, &tlv(0x30, &bytes(arg() as usize)));
    whole(&p.build());
}
/// the parts printed on their own, balanced too
fn each(e: &Extension) {
    balanced(e);
    match &e.content {
        SpecificExtension::SubjectKeyIdentifier(x) => balanced(x),
        SpecificExtension::KeyUsage(x) => balanced(x),
        SpecificExtension::SubjectAlternativeName(x) => balanced(x),
        SpecificExtension::BasicConstraints(x) => balanced(x),
        SpecificExtension::ExtendedKeyUsage(x) => balanced(x),
        SpecificExtension::ModbusRole(x) => balanced(x),
        SpecificExtension::Unknown(_) => {}
    }
}
const IDS: &[&[u8]] = &[SKI, KU, SAN, BC, EKU, ROLE, &[0x55, 0x1d, 35]];
fn values() -> Vec<Vec<u8>> {
    vec![tlv(4, &[1, 2, 3, 4]), bits(7, &[0x86, 0x80]), san_content(), seq(&[&[1, 1, 255], &[2, 1, 5]]), eku_content(), tlv(0x0c, b"op"), vec![0x30, 0]]
}
/// every kind (arg % 8) with any contents of arg / 8 octets
fn contents() {
    let b = ext_contents(IDS[arg() as usize % 8], choose(0, 2), &bytes(arg() as usize / 8));
    if let Ok(e) = Extension::parse(&b) {
        each(&e);
    }
}
/// ... or with one octet arbitrary (arg / 8 is 0) or edited
fn near() {
    let k = arg() as usize % 8;
    let v = &values()[k];
    let mut b = v.clone();
    match arg() / 8 {
        0 => {
            corrupt(&mut b);
        }
        n => b = edit(v, n as usize - 1),
    }
    if let Ok(e) = Extension::parse(&ext_contents(IDS[k], 0, &b)) {
        each(&e);
    }
}
/// all key usages, any bits
fn usages() {
    let b = ext_contents(KU, 0, &bits(byte(), &bytes(arg() as usize)));
    if let Ok(e) = Extension::parse(&b) {
        each(&e);
    }
}
/// values not taken from documents
fn given() {
    let n = span(arg() as usize);
    balanced(&Name { inner: &n });
    balanced(&SubjectKeyIdentifier { key_identifier: &n });
    balanced(&SpecificExtension::Unknown(&n));
}

// ------------------------------------------------------------------ the console printer

/// Print `v` arg-many levels deep; what is printed afterwards stands where it did before.
fn console(v: &dyn Printable, levels: usize) {
    let mut r = Report::default();
    fn all(v: &dyn Printable, levels: usize, p: &mut dyn LinePrinter) {
        p.begin_line();
        p.println_str("outer");
        for _ in 0..levels {
            p.begin_type();
        }
        p.begin_line();
        p.println_str("before");
        v.print(p);
        p.begin_line();
        p.println_str("after");
        for _ in 0..levels {
            p.end_type();
        }
        p.begin_line();
        p.println_str("end");
    }
    all(v, levels, &mut r);
    check(r.depth == 0, "levels opened but not closed");
    let out = capture(|| all(v, levels, &mut ConsoleLinePrinter::new()));
    observe_bytes(&out);
    compare_report(&out, &r);
    cover("console");
}
fn console_cert() {
    let mut b = template(arg());
    if arg() == 0 {
        let mut p = Parts::small();
        p.serial = tlv(2, &bytes(2));
        p.exts = Parts::ext_field(&[ext(BC, 0, &seq(&[&[1, 1, 255], &tlv(byte(), &[5])])), ext(SKI, 0, &tlv(byte(), &bytes(2)))]);
        b = p.build();
    }
    if let Ok(c) = Certificate::parse(&b) {
        console(&c, 0);
        console(&c, 2);
    }
}
fn console_ext() {
    let k = arg() as usize % 8;
    let mut v = values()[k].clone();
    let n = v.len();
    v[n - 1] = byte();
    let b = ext_contents(IDS[k], choose(0, 2), &v);
    if let Ok(e) = Extension::parse(&b) {
        console(&e, 0);
        console(&e, 1);
    }
}

// ------------------------------------------------------------------ the tool's DER printer

static mut DOC: Vec<u8> = vec![];
#[allow(static_mut_refs)]
fn doc() -> &'static [u8] {
    unsafe { &DOC }
}
fn walk(b: Vec<u8>) -> ! {
    unsafe { DOC = b };
    tool(start, &["--der", NAME], Fs::File(doc()), |r| {
        observe(r.code as u64);
        observe_bytes(&r.out);
        // checks that the indentation follows the nesting, and back
        let (ok, _) = compare_der(&r.out, doc());
        if ok {
            cover("walked");
        } else {
            cover("walked up to the defect");
        }
    })
}
/// arg octets, then an element which must stand at the outermost level again
fn tool_all() {
    walk(cat(&[&bytes(arg() as usize), &[5, 0]]));
}
/// containers of arbitrary kinds nested arg deep, with elements before, in and behind them
fn tool_nested() {
    let mut b = tlv(2, &[7]);
    for _ in 0..arg() {
        b = cat(&[&[5, 0], &tlv(byte(), &b), &bits(0, &[0x5a])]);
    }
    walk(cat(&[&b, &[5, 0]]));
}
fn nested() -> Vec<u8> {
    cat(&[&seq(&[&seq(&[&[1, 1, 255], &tlv(0xa0, &set(&[&[2, 1, 5]])), &[5, 0]]), &bits(0, &[1])]), &tlv(0x30, &[]), &[5, 0]])
}
/// one arbitrary octet in a nested document
fn tool_flip() {
    let mut b = nested();
    corrupt(&mut b);
    walk(b);
}
/// cut short anywhere
fn tool_cut() {
    let b = nested();
    let n = place(b.len() + 1);
    walk(b[..n].to_vec());
}
/// one structural edit
fn tool_edits() {
    walk(edit(&nested(), arg() as usize));
}
export! {
    h_c27_flip => flip, h_c27_edits => edits, h_c27_names => names, h_c27_blocks => blocks, h_c27_contents => contents, h_c27_near => near,
    h_c27_usages => usages, h_c27_given => given, h_c27_console_cert => console_cert, h_c27_console_ext => console_ext,
    h_c27_tool_all => tool_all, h_c27_tool_nested => tool_nested, h_c27_tool_flip => tool_flip, h_c27_tool_cut => tool_cut, h_c27_tool_edits => tool_edits,
}
