//! What a call does depends on its arguments alone, whatever was done before, between or meanwhile.
use crate::common::*;
use crate::os::Report;
use crate::refm;
use crate::sym::*;
use crate::touch;
use rx509::der::*;
use rx509::x509::ext::*;
use rx509::x509::printer::*;
use rx509::x509::*;

/// Something else done with `b`, successful or not.
fn disturb(k: u64, b: &[u8]) {
    match k {
        0 => touch::walk::<false>(b),
        1 => touch::certificate(b),
        2 => touch::one(b),
        3 => touch::name(&Name { inner: b }),
        _ => {
            let _ = Certificate::parse(b);
        }
    }
}
fn report(x: &dyn Printable) -> Report {
    let mut r = Report::default();
    x.print(&mut r);
    check(r.depth == 0, "printing ends on another level than it began");
    r
}
fn same_report(a: &Report, b: &Report) {
    let mut ok = a.lines.len() == b.lines.len();
    for (x, y) in a.lines.iter().zip(&b.lines) {
        ok = ok && x.depth == y.depth && x.begun == y.begun && x.text.len() == y.text.len();
        if ok {
            ok &= same(&x.text, &y.text);
        }
    }
    check(ok, "the same value printed differently");
    cover("printed");
}
/// Parsing `b` against the reference, as every kind of thing; once more gives the same.
fn verify(b: &[u8]) {
    compare_walk(b);
    let ok = compare_cert(b);
    compare_ext(b);
    compare_name(b);
    if ok {
        let c = Certificate::parse(b).unwrap_or_else(|_| fail("a certificate is rejected the second time"));
        let r = refm::cert(b, (0, b.len())).unwrap_or_else(|| fail("reference"));
        full(&c, b, &r);
        same_report(&report(&c), &report(&c));
    }
    cover("verified");
}
fn full(c: &Certificate, b: &[u8], r: &refm::Cert) {
    check_cert(c, b, r);
    compare_exts(c, b, r);
    compare_name(c.tbs_certificate.value.issuer.inner);
    compare_name(c.tbs_certificate.value.subject.inner);
}
/// `arg / 8` arbitrary octets given to some entry point, then documents of every kind
fn after() {
    let x = bytes(arg() as usize / 8);
    disturb(arg() % 8, &x);
    let good = Parts::full().build();
    check(compare_cert(&good), "well-formed certificate rejected");
    compare_walk(&good);
    let e = ext_contents(SAN, 1, &san_content());
    check(compare_ext(&e), "well-formed extension rejected");
    let n = cat(&[&set(&[&ava(3, 0x0c, b"CA"), &ava(10, 0x16, b"Org")]), &set(&[&ava(6, 0x13, b"NL")])]);
    check(compare_name(&n), "well-formed name rejected");
    cover("after");
}
/// documents of every kind, then `arg` arbitrary octets
fn before() {
    let good = Parts::full().build();
    for k in 0..4 {
        disturb(k, &good);
    }
    disturb(2, &ext_contents(SAN, 1, &san_content()));
    disturb(3, &cat(&[&set(&[&ava(3, 0x0c, b"CA")]), &set(&[&ava(6, 0x13, b"NL")])]));
    verify(&bytes(arg() as usize));
}
fn template() -> Vec<u8> {
    match arg() % 4 {
        0 => Parts::small().build(),
        1 => {
            let mut p = Parts::small();
            p.iuid = tlv(0x81, &[0, 0x5a]);
            p.exts = Parts::ext_field(&[ext(BC, 1, &seq(&[&[1, 1, 255], &[2, 1, 5]])), ext(KU, 1, &bits(7, &[0x86, 0x80]))]);
            p.build()
        }
        _ => Parts::full().build(),
    }
}
/// the contents of a buffer change between calls: one octet of a certificate arbitrary, then as it was
fn reuse() {
    let mut b = template();
    let p = place(b.len());
    let (was, now) = (b[p], byte());
    b[p] = now;
    disturb(1, &b);
    b[p] = was;
    check(compare_cert(&b), "well-formed certificate rejected");
    disturb(1, &b);
    b[p] = now;
    verify(&b);
}
/// what was parsed first is still there after the same with another octet in another buffer was
fn keep() {
    let a = template();
    let mut b = a.clone();
    let r = refm::cert(&a, (0, a.len())).unwrap_or_else(|| fail("reference"));
    let c = Certificate::parse(&a).unwrap_or_else(|_| fail("well-formed certificate rejected"));
    let first = report(&c);
    corrupt(&mut b);
    disturb(1, &b);
    let d = Certificate::parse(&b);
    full(&c, &a, &r);
    same_report(&first, &report(&c));
    if let (Ok(d), Some(r)) = (&d, refm::cert(&b, (0, b.len()))) {
        full(d, &b, &r);
        cover("both");
    }
    drop(c);
    if let (Ok(d), Some(r)) = (&d, refm::cert(&b, (0, b.len()))) {
        full(d, &b, &r);
    }
}
/// two certificates, an arbitrary octet in each at the same place
fn two() {
    let mut a = template();
    let mut b = a.clone();
    let p = place(a.len());
    a[p] = byte();
    b[p] = byte();
    disturb(1, &a);
    verify(&b);
}
/// the same over and over again, `arg / 8` times
fn often() {
    let n = arg() / 8;
    let b = bytes(3);
    match arg() % 8 {
        0 => {
            let t = cat(&[&tlv(0x30, &b), &tlv(4, &b)]);
            for _ in 0..n {
                compare_walk(&t);
            }
        }
        1 => {
            let mut p = Parts::small();
            p.serial = tlv(b[0] | 2, &b[1..]);
            let t = p.build();
            for _ in 0..n {
                compare_cert(&t);
            }
        }
        2 => {
            let e = ext_contents(KU, 1, &tlv(3, &b));
            for _ in 0..n {
                compare_ext(&e);
            }
        }
        3 => {
            let e = set(&[&ava(3, 0x0c, &b)]);
            for _ in 0..n {
                compare_name(&e);
            }
        }
        4 => {
            let t = cat(&[&[0x30, 2], &b]);
            let c = Parts::small().build();
            for _ in 0..n {
                let _ = Certificate::parse(&t);
                let _ = Extension::parse(&t);
                let _ = Name { inner: &t }.parse();
            }
            check(compare_cert(&c), "well-formed certificate rejected");
        }
        5 => {
            let mut p = Parts::small();
            p.exts = Parts::ext_field(&[ext(SKI, 0, &tlv(4, &b))]);
            let t = p.build();
            if let Ok(c) = Certificate::parse(&t) {
                let first = report(&c);
                for _ in 0..n {
                    same_report(&first, &report(&c));
                }
            }
        }
        _ => {
            // very often
            struct Count(u64);
            impl ParseHandler for Count {
                fn begin_constructed(&mut self) {}
                fn end_constructed(&mut self) {}
                fn on_type(&mut self, _: &ASNType) {
                    self.0 += 1;
                }
                fn on_error(&mut self, _: &ASNError) {
                    self.0 += 1000;
                }
            }
            let t = [1, 1, if b[0] & 1 == 0 { 0 } else { 255 }];
            let mut c = Count(0);
            let mut ok = true;
            for _ in 0..n {
                ok &= parse_all(&t, &mut c).is_ok();
            }
            check(ok && c.0 == n, "a walk over the same octets differs from an earlier one");
            compare_walk(&b);
        }
    }
    cover("often");
}
/// Walks the contents of every octet string and bit string, and more, while walking.
struct Within<'b> {
    f: Follow<'b>,
    deep: usize,
}
impl<'b> ParseHandler for Within<'b> {
    fn begin_constructed(&mut self) {
        self.f.begin_constructed();
        disturb(0, &[0x30, 3, 1, 1, 255]);
    }
    fn end_constructed(&mut self) {
        disturb(0, &[0x30, 3, 1, 1, 1]);
        self.f.end_constructed();
    }
    fn on_type(&mut self, t: &ASNType) {
        let inner: Option<&[u8]> = match t {
            ASNType::OctetString(x) => Some(x.value),
            ASNType::BitString(x) => x.value.octets(),
            ASNType::Sequence(x) => Some(x.value),
            _ => None,
        };
        if let Some(c) = inner {
            if self.deep < 3 {
                let mut want = vec![];
                refm::walk(c, (0, c.len()), &mut want);
                let f = Follow { base: c, want, next: 0, errors: 0, types: 0, extra: nothing, reported: None };
                let mut w = Within { f, deep: self.deep + 1 };
                let _ = parse_all(c, &mut w);
                check(w.f.next == w.f.want.len(), "elements of a walk within a walk not delivered");
                cover("within");
            }
            disturb(4, c);
        }
        self.f.on_type(t);
    }
    fn on_error(&mut self, e: &ASNError) {
        disturb(0, &[5, 0]);
        self.f.on_error(e);
    }
}
fn reenter() {
    let mut b = match arg() {
        0 => cat(&[&tlv(4, &cat(&[&[0x30, 0], &tlv(4, &[5, 0]), &[2, 1, 1]])), &tlv(0x31, &bits(0, &[1, 1, 255]))]),
        1 => cat(&[&seq(&[&tlv(4, &seq(&[&[1, 1, 0], &set(&[])])), &[5, 0]]), &tlv(0xa1, &tlv(4, &[4, 1, 4]))]),
        2 => seq(&all_exts()[..4].iter().map(|x| &x[..]).collect::<Vec<_>>()),
        _ => bytes(arg() as usize),
    };
    if arg() < 3 {
        corrupt(&mut b);
    }
    let mut want = vec![];
    let good = refm::walk(&b, (0, b.len()), &mut want);
    let f = Follow { base: &b, want, next: 0, errors: 0, types: 0, extra: nothing, reported: None };
    let mut w = Within { f, deep: 0 };
    let r = parse_all(&b, &mut w);
    check(r.is_ok() == good, "acceptance differs");
    check(w.f.next == w.f.want.len(), "elements before the end (or the defect) not delivered");
    check(w.f.errors == !good as usize, "error callbacks differ");
    cover("outer");
}
/// A printer that prints something else in the middle of a line.
struct Aside<'b> {
    r: Report,
    other: &'b dyn Printable,
    calls: usize,
}
impl<'b> LinePrinter for Aside<'b> {
    fn begin_type(&mut self) {
        self.r.begin_type()
    }
    fn begin_line(&mut self) {
        self.calls += 1;
        if self.calls % 4 == 1 {
            report(self.other);
        }
        self.r.begin_line()
    }
    fn print_fmt(&mut self, a: &core::fmt::Arguments) {
        self.r.print_fmt(a)
    }
    fn print_str(&mut self, s: &str) {
        self.r.print_str(s)
    }
    fn println_fmt(&mut self, a: &core::fmt::Arguments) {
        self.r.println_fmt(a)
    }
    fn println_str(&mut self, s: &str) {
        self.r.println_str(s)
    }
    fn end_type(&mut self) {
        self.r.end_type()
    }
}
/// one certificate printed while another is
fn aside() {
    let mut a = template();
    corrupt(&mut a);
    let b = Parts::full().build();
    let d = Certificate::parse(&b).unwrap_or_else(|_| fail("well-formed certificate rejected"));
    if let Ok(c) = Certificate::parse(&a) {
        let alone = report(&c);
        let mut p = Aside { r: Report::default(), other: &d, calls: 0 };
        c.print(&mut p);
        same_report(&alone, &p.r);
    }
}
const KINDS: [u8; 12] = [1, 2, 3, 4, 5, 6, 0x0c, 0x13, 0x16, 0x30, 0x31, 0xa3];
/// elements of one type, one after the other: `arg / 16` arbitrary octets each
fn pair() {
    let (k, n) = (KINDS[arg() as usize % 16], arg() as usize / 16);
    disturb(0, &tlv(k, &bytes(n)));
    compare_walk(&tlv(k, &bytes(n)));
    cover("pair");
}
/// identifiers of `arg / 4` arcs that differ in one arc of any size at any place, shown one after the other
fn identifiers() {
    let n = arg() as usize / 4;
    let base: Vec<u32> = (0..n).map(|i| [2, 5, 840, 113549, 7, 300][i % 6] + i as u32 / 6).collect();
    let one = || {
        let mut a = base.clone();
        let b = bytes(4);
        a[place(n)] = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
        a
    };
    let (a, b) = (one(), one());
    let enc = |a: &[u32]| {
        let mut c = vec![];
        for (i, x) in a.iter().enumerate() {
            let mut x = *x;
            if i == 0 {
                x = x % 3 * 40;
            }
            let mut d = vec![x as u8 & 127];
            while x > 127 {
                x >>= 7;
                d.push(x as u8 & 127 | 128);
            }
            c.extend(d.iter().rev());
        }
        c
    };
    match arg() % 4 {
        0 => {
            let shown = |a: &[u32]| format!("{}", ASNObjectIdentifier::new(a.to_vec())).into_bytes();
            let (x, z) = (shown(&a), shown(&b));
            for (a, x) in [(&a, &x), (&b, &z)] {
                let mut want = vec![];
                for (i, v) in a.iter().enumerate() {
                    if i > 0 {
                        want.push(b'.');
                    }
                    let mut d = [0; 20];
                    let n = digits(*v as u64, &mut d);
                    want.extend_from_slice(&d[20 - n..]);
                }
                check(x.len() == want.len() && same(x, &want), "an identifier shown differently after another");
            }
        }
        1 => {
            disturb(0, &oid(&enc(&a)));
            compare_walk(&oid(&enc(&b)));
        }
        2 => {
            disturb(2, &ext_contents(&enc(&a), 1, &[5, 0]));
            compare_ext(&ext_contents(&enc(&b), 0, &[5, 0]));
        }
        _ => {
            let name = |a: &[u32]| set(&[&seq(&[&oid(&enc(a)), &[0x13, 1, b'n']])]);
            disturb(3, &name(&a));
            compare_name(&name(&b));
        }
    }
    cover("identifiers");
}
/// contents of `arg / 16` octets that differ in one octet at any place, one after the other
fn alike() {
    let (k, n) = (KINDS[arg() as usize % 16], arg() as usize / 16);
    let one = || {
        let mut c: Vec<u8> = match k {
            3 => vec![0; n],
            0x30 | 0x31 | 0xa3 => tlv(4, &vec![b'4'; n]),
            _ => vec![b'4'; n],
        };
        let at = [0, 1, n / 2, n - 1][choose(0, 3) as usize];
        c[at] = byte();
        tlv(k, &c)
    };
    let (a, b) = (one(), one());
    disturb(0, &a);
    compare_walk(&b);
    cover("alike");
}
/// times that differ in two digits (and perhaps in their form)
fn times() {
    let k = arg() as usize;
    let time = || {
        let mut t = *b"20240229235958Z";
        let mut d = [0u8; 2];
        fill(&mut d);
        for x in d.iter_mut() {
            *x = b'0' + (*x & 15);
            assume(*x <= b'9');
        }
        t[2 * k..2 * k + 2].copy_from_slice(&d);
        match choose(0, 1) {
            0 => tlv(0x18, &t),
            _ => tlv(0x17, &t[2..]),
        }
    };
    disturb(0, &time());
    compare_walk(&time());
    cover("times");
}
/// extensions and names, one after the other: `arg / 8` arbitrary octets each
fn pair_ext() {
    let n = arg() as usize / 8;
    let id = [SKI, KU, SAN, BC, EKU, ROLE, &[0x2a, 3]][arg() as usize % 8];
    let c = || {
        let c = bytes(n);
        ext_contents(id, 0, &match arg() % 8 {
            0 => tlv(4, &c),
            1 => tlv(3, &c),
            2 => seq(&[&tlv(0x82, &c)]),
            3 => seq(&[&tlv(2, &c)]),
            4 => seq(&[&tlv(6, &cat(&[KP, &c]))]),
            5 => tlv(0x0c, &c),
            _ => c,
        })
    };
    let (a, b) = (c(), c());
    disturb(2, &a);
    compare_ext(&b);
    cover("extensions");
}
fn pair_name() {
    let n = arg() as usize;
    let one = || set(&[&ava([3, 6, 7, 8, 10, 11, 12][choose(0, 6) as usize], [0x0c, 0x13, 4][choose(0, 2) as usize], &bytes(n))]);
    let (a, b) = (one(), cat(&[&one(), &one()]));
    disturb(3, &a);
    compare_name(&b);
    cover("names");
}
/// two printers of the library's own, taking turns
fn printers() {
    let mut p = Parts::small();
    p.serial = tlv(2, &bytes(2));
    let b = p.build();
    if let Ok(c) = Certificate::parse(&b) {
        let alone = crate::os::capture(|| c.print(&mut ConsoleLinePrinter::new()));
        let turns = crate::os::capture(|| {
            let mut other = ConsoleLinePrinter::new();
            other.begin_type();
            other.begin_type();
            c.print(&mut ConsoleLinePrinter::new());
            other.end_type();
        });
        check(turns.len() == alone.len() && same(&turns, &alone), "another printer changes what is printed");
        let nested = crate::os::capture(|| {
            let mut other = ConsoleLinePrinter::default();
            other.begin_type();
            c.print(&mut ConsoleLinePrinter::new());
            other.begin_line();
            other.println_str("x");
            other.end_type();
        });
        let n = alone.len();
        check(nested.len() == n + 4 && same(&nested[..n], &alone) && same(&nested[n..], b"  x\n"), "a printer does not keep its own level");
        cover("printers");
    }
}
export! {
    h_c33_after => after, h_c33_before => before, h_c33_reuse => reuse, h_c33_keep => keep, h_c33_two => two,
    h_c33_often => often, h_c33_reenter => reenter, h_c33_aside => aside,
    h_c33_pair => pair, h_c33_identifiers => identifiers, h_c33_alike => alike, h_c33_times => times, h_c33_pair_ext => pair_ext, h_c33_pair_name => pair_name, h_c33_printers => printers,
}
