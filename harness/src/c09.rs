use crate::common::*;
use crate::refm;
use crate::sym::*;
use rx509::der::*;

fn verdict(ok: bool) {
    if ok {
        cover("accepted");
    } else {
        cover("rejected");
    }
}
struct Got(Option<u64>, u32);
impl ParseHandler for Got {
    fn begin_constructed(&mut self) {}
    fn end_constructed(&mut self) {}
    fn on_type(&mut self, t: &ASNType) {
        self.1 += 1;
        match t {
            ASNType::UTCTime(x) | ASNType::GeneralizedTime(x) => self.0 = Some(x.value),
            _ => fail("a time delivered as another type"),
        }
    }
    fn on_error(&mut self, _: &ASNError) {}
}
fn get(id: u8, c: &[u8]) -> Option<u64> {
    let b = tlv(id, c);
    let mut g = Got(None, 0);
    let r = parse_all(&b, &mut g);
    if r.is_ok() {
        check(g.1 == 1, "one element");
        check(g.0.is_some(), "no time delivered");
    }
    observe(r.is_ok() as u64);
    if r.is_ok() {
        g.0
    } else {
        None
    }
}
fn layout(arg: u64) -> (u8, usize) {
    if arg & 1 == 0 {
        (0x17, 13)
    } else {
        (0x18, 15)
    }
}
/// contents of `arg / 2` octets of which all are arbitrary, when the length is not the right one
fn length() {
    let (id, _) = layout(arg());
    verdict(compare_walk(&tlv(id, &bytes(arg() as usize / 2))));
}
/// the right length; one octet anything, the others digits that may matter for it
fn syntax() {
    let (id, n) = layout(arg());
    let base: &[u8] = if id == 0x17 { b"240229235959Z" } else { b"20240229235959Z" };
    let mut c = base.to_vec();
    let p = choose(0, n as u64 - 1) as usize;
    c[p] = byte();
    if p + 1 < n {
        c[p + 1] = byte();
    }
    verdict(compare_walk(&tlv(id, &c)));
}
fn compare(id: u8, c: &[u8]) {
    let got = get(id, c);
    let want = refm::time(c, id == 0x18);
    match (got, want) {
        (Some(a), Some(b)) => {
            observe(a);
            check(a == b, "seconds differ");
            cover("accepted");
        }
        (None, None) => cover("rejected"),
        (Some(_), None) => fail("not a valid time, but accepted"),
        (None, Some(_)) => fail("valid time rejected"),
    }
}
fn put2(c: &mut [u8], v: u64) {
    c[0] = b'0' + (v / 10) as u8;
    c[1] = b'0' + (v % 10) as u8;
}
/// arbitrary digits (other octets: see `syntax`)
fn digits(c: &mut [u8]) {
    fill(c);
    for x in c.iter_mut() {
        *x = b'0' + (*x & 15);
        assume(*x <= b'9');
    }
}
/// every two-digit year (UTCTime: arg 0; GeneralizedTime in century arg - 1), every month and the
/// next impossible ones, any two digits for the day
fn date() {
    let mut c = [0u8; 15];
    let yy = choose(0, 99);
    let mm = choose(0, 13);
    let (id, k) = if arg() == 0 { (0x17, 0) } else { (0x18, 2) };
    if k == 2 {
        put2(&mut c, arg() - 1);
    }
    put2(&mut c[k..], yy);
    put2(&mut c[k + 2..], mm);
    digits(&mut c[k + 4..k + 6]);
    c[k + 6..k + 13].copy_from_slice(b"085742Z");
    compare(id, &c[..k + 13]);
}
/// years around the special ones
fn years() {
    const Y: [u64; 32] = [
        0, 1, 4, 400, 999, 1000, 1582, 1600, 1900, 1968, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2004, 2037, 2038, 2039, 2099, 2100, 2104,
        2105, 2106, 2107, 2400, 3000, 4000, 9996, 9999,
    ];
    let y = Y[choose(0, 31) as usize];
    let mut c = [0u8; 15];
    put2(&mut c, y / 100);
    put2(&mut c[2..], y % 100);
    put2(&mut c[4..], choose(1, 12));
    digits(&mut c[6..8]);
    c[8..].copy_from_slice(b"235959Z");
    compare(0x18, &c);
}
/// any time of day and any day, on a few months; arg & 1 the layout, arg / 2 the month
fn clock() {
    let (id, n) = layout(arg());
    let k = n - 13;
    const M: [&[u8; 8]; 6] = [b"19700100", b"20000200", b"20230200", b"20491200", b"19991100", b"20240200"];
    let mut c = [0u8; 15];
    c[..k + 4].copy_from_slice(&M[arg() as usize / 2][2 - k..6]);
    digits(&mut c[k + 4..k + 12]);
    c[k + 12] = b'Z';
    compare(id, &c[..n]);
}
export! { h_c09_length => length, h_c09_syntax => syntax, h_c09_date => date, h_c09_years => years, h_c09_clock => clock }
