//! The decoder tool as a whole: std's file reading, argument handling and printing are executed
//! over a model of the C library (see os.rs).
use crate::common::*;
use crate::os::*;
use crate::sym::*;
use rx509::x509::Certificate;
use rx509::x509::printer::Printable;

static mut DOC: Vec<u8> = vec![];
#[allow(static_mut_refs)]
fn doc() -> &'static [u8] {
    unsafe { &DOC }
}
fn with(args: &[&str], b: Vec<u8>, then: fn(&Run)) -> ! {
    unsafe { DOC = b };
    tool(start, args, Fs::File(doc()), then)
}
fn note(r: &Run) {
    observe(r.code as u64);
    observe_bytes(&r.out);
    observe_bytes(&r.err);
}
/// Undecodable contents: the error is on the standard error or among the lines left over.
fn told(r: &Run, rest: &[u8]) {
    check(!r.err.is_empty() || mentions(rest, b"error"), "no error printed for contents that do not decode");
    cover("undecodable");
}
fn structure(r: &Run) {
    note(r);
    let (ok, rest) = compare_der(&r.out, doc());
    if ok {
        check(rest.is_empty(), "output beyond the decoded structure");
        check(r.err.is_empty(), "error output for a document that decodes");
        check(r.code == 0, "unsuccessful exit for a document that decodes");
        cover("structure printed");
    } else {
        told(r, rest);
    }
}
fn certificate(r: &Run) {
    note(r);
    match Certificate::parse(doc()) {
        Ok(c) => {
            let mut p = Report::default();
            c.print(&mut p);
            compare_report(&r.out, &p);
            check(r.err.is_empty(), "error output for a certificate that decodes");
            check(r.code == 0, "unsuccessful exit for a certificate that decodes");
            cover("certificate printed");
        }
        Err(_) => told(r, &r.out),
    }
}

fn small() -> Vec<u8> {
    let n = arg() as usize;
    bytes(n)
}
/// --der on any contents of arg octets
fn der_all() {
    let b = small();
    with(&["--der", NAME], b, structure)
}
/// --certs on any contents of arg octets
fn certs_all() {
    let b = small();
    with(&["--certs", NAME], b, certificate)
}
/// a document with every kind of element, octets arbitrary
fn der_kinds() {
    let t = cat(&[
        &seq(&[&tlv(2, &bytes(1)), &oid(&[0x2a, 3]), &set(&[&[5, 0], &tlv(0x0c, b"t")])]),
        &bits(0, &bytes(arg() as usize)),
        &tlv(0x17, b"200101000000Z"),
        &tlv(0xa1, &tlv(1, &[255])),
        &tlv(4, &bytes(2)),
    ]);
    with(&["--der", NAME], t, structure)
}
/// one octet of it replaced
fn der_flip() {
    let mut t = cat(&[&seq(&[&tlv(2, &[5]), &set(&[&[5, 0]])]), &tlv(4, &[1])]);
    corrupt(&mut t);
    with(&["--der", NAME], t, structure)
}
/// cut short
fn der_cut() {
    let t = cat(&[&seq(&[&tlv(2, &[5]), &set(&[&[5, 0]])]), &tlv(4, &[1])]);
    let k = place(t.len() + 1);
    with(&["--der", NAME], t[..k].to_vec(), structure)
}
/// arg octets and something behind them
fn der_large() {
    let t = cat(&[&tlv(4, &vec![0x55; arg() as usize]), &tlv(2, &bytes(1))]);
    with(&["--der", NAME], t, structure)
}
/// a certificate of arg octets more than usual
fn certs_large() {
    let mut p = Parts::small();
    p.serial = tlv(2, &bytes(1));
    p.exts = Parts::ext_field(&[ext(&[0x55, 0x1d, 35], 0, &vec![0x55; arg() as usize])]);
    with(&["--certs", NAME], p.build(), certificate)
}
/// some octets of a certificate arbitrary
fn certs_fields() {
    let mut p = Parts::small();
    p.serial = tlv(2, &bytes(3));
    p.version = vec![0xa0, 3, 2, 1, byte()];
    p.exts = Parts::ext_field(&[ext(SKI, 0, &tlv(byte(), &bytes(2)))]);
    with(&["--certs", NAME], p.build(), certificate)
}
/// cut short, by arg octets at most
fn certs_cut() {
    let t = Parts::small().build();
    let n = t.len();
    let k = place((arg() as usize).min(n + 1));
    with(&["--certs", NAME], t[..n - k].to_vec(), certificate)
}

/// octets with which no element begins
fn no_element() {
    let b = junk(arg() as usize / 2);
    if arg() & 1 == 0 {
        with(&["--der", NAME], b, structure)
    } else {
        with(&["--certs", NAME], b, certificate)
    }
}
fn refused(r: &Run) {
    note(r);
    check(r.code != 0, "successful exit for a bad invocation");
    cover("refused");
}
fn text(n: usize) -> String {
    let b = bytes(n);
    let mut ok = true;
    for c in &b {
        ok &= (*c != 0) & (*c < 128);
    }
    assume(ok);
    // every octet is ASCII
    unsafe { String::from_utf8_unchecked(b) }
}
fn good() -> Vec<u8> {
    Parts::small().build()
}
fn bad_flag(f: String) -> ! {
    assume(!same(f.as_bytes(), b"--der"));
    assume(!same(f.as_bytes(), b"--certs"));
    with(&[&f, NAME], good(), refused)
}
/// any mode of arg characters
fn mode_all() {
    let f = text(arg() as usize);
    bad_flag(f)
}
/// one of the modes with a character replaced, left out, doubled or put in front or behind
fn mode_near() {
    let m = if arg() & 1 == 0 { "--der" } else { "--certs" };
    let mut b = m.as_bytes().to_vec();
    let p = place(b.len() + 1);
    match arg() / 2 {
        0 => {
            assume(p < b.len());
            b[p] = text(1).as_bytes()[0];
        }
        1 => {
            assume(p < b.len());
            b.remove(p);
        }
        _ => b.insert(p, text(1).as_bytes()[0]),
    }
    bad_flag(unsafe { String::from_utf8_unchecked(b) })
}
/// wrong number of arguments
fn count() {
    let m = if arg() & 1 == 0 { "--der" } else { "--certs" };
    let x = text(2);
    let a: &[&str] = match arg() / 2 {
        0 => &[],
        1 => &[m],
        2 => &[NAME],
        3 => &[m, NAME, &x],
        4 => &[m, NAME, NAME],
        5 => &[m, m, NAME],
        6 => &[&x, m, NAME],
        _ => &[m, NAME, m, NAME],
    };
    with(a, good(), refused)
}
/// no such file, or a directory
fn unreadable() {
    let m = if arg() & 1 == 0 { "--der" } else { "--certs" };
    let f = if arg() & 2 == 0 { Fs::Missing } else { Fs::Directory };
    tool(start, &[m, NAME], f, refused)
}
fn octets(n: usize) -> Vec<u8> {
    let b = bytes(n);
    let mut ok = true;
    for c in &b {
        ok &= *c != 0;
    }
    assume(ok);
    b
}
/// the file goes by any name of arg / 2 octets
fn named() {
    let b = octets(arg() as usize / 2);
    let mut ok = true;
    for c in &b {
        ok &= *c != b'/';
    }
    assume(ok);
    assume(!same(&b, b"."));
    assume(!same(&b, b".."));
    let (mode, then): (&[u8], fn(&Run)) = if arg() & 1 == 0 { (b"--der", structure) } else { (b"--certs", certificate) };
    unsafe { DOC = good() };
    cover("any name");
    tool_on(start, &b, &[mode, &b], Fs::File(doc()), then)
}
/// a mode of arg octets, which need not be text
fn mode_octets() {
    let f = octets(arg() as usize);
    assume(!same(&f, b"--der"));
    assume(!same(&f, b"--certs"));
    unsafe { DOC = good() };
    tool_on(start, NAME.as_bytes(), &[&f, NAME.as_bytes()], Fs::File(doc()), refused)
}
/// the contents come in up to three pieces, from a pipe (which has no length either)
fn pieces() {
    let b = if arg() & 1 == 0 { cat(&[&seq(&[&tlv(2, &bytes(1)), &set(&[&[5, 0]])]), &tlv(4, &[1])]) } else { good() };
    let (mode, then): (&str, fn(&Run)) = if arg() & 1 == 0 { ("--der", structure) } else { ("--certs", certificate) };
    let j = place(b.len());
    let k = if arg() & 2 == 0 { b.len() } else { place(b.len()) };
    assume(j <= k);
    unsafe { DOC = b };
    cover("in pieces");
    tool(start, &[mode, NAME], Fs::Pipe(doc(), [j, k]), then)
}
/// a pipe, of more than is read at once
fn pieces_large() {
    let t = cat(&[&tlv(4, &vec![0x55; arg() as usize]), &tlv(2, &bytes(1))]);
    let n = t.len();
    let j = [1, 31, 32, 33, 512, 4096, 8191, 8192, 8193][choose(0, 8) as usize].min(n);
    unsafe { DOC = t };
    tool(start, &["--der", NAME], Fs::Pipe(doc(), [j, n]), structure)
}
/// another file than the one there
fn other_name() {
    let m = if arg() & 1 == 0 { "--der" } else { "--certs" };
    let mut b = NAME.as_bytes().to_vec();
    let p = place(b.len());
    b[p] = text(1).as_bytes()[0];
    assume(b[p] != b'/');
    assume(!same(&b, NAME.as_bytes()));
    let f = unsafe { String::from_utf8_unchecked(b) };
    with(&[m, &f], good(), refused)
}
export! {
    h_c30_der_all => der_all, h_c30_certs_all => certs_all, h_c30_der_kinds => der_kinds, h_c30_der_flip => der_flip,
    h_c30_der_cut => der_cut, h_c30_der_large => der_large, h_c30_certs_large => certs_large, h_c30_certs_fields => certs_fields,
    h_c30_certs_cut => certs_cut, h_c30_mode_all => mode_all, h_c30_mode_near => mode_near, h_c30_count => count,
    h_c30_unreadable => unreadable, h_c30_other_name => other_name, h_c30_pieces => pieces, h_c30_named => named, h_c30_junk => no_element, h_c30_mode_octets => mode_octets,
    h_c30_pieces_large => pieces_large,
}
