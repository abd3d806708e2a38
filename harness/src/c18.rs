use crate::common::*;
use crate::refm;
use crate::sym::*;
use rx509::der::*;
use rx509::x509::*;

fn word() -> u64 {
    let mut b = [0u8; 8];
    fill(&mut b);
    u64::from_le_bytes(b)
}
fn t(v: u64) -> UtcTime {
    UtcTime::from_seconds_since_epoch(v)
}
/// three arbitrary instants
fn window() {
    let (a, b, now) = (word(), word(), word());
    let v = Validity { not_before: t(a), not_after: t(b) };
    let got = v.is_valid(t(now));
    observe(got as u64);
    check(got == ((now >= a) & (now <= b)), "validity at an instant differs from not-before <= now <= not-after");
    if got {
        cover("valid");
    } else {
        cover("not valid");
    }
}
/// at and next to the ends
fn ends() {
    let (a, b) = (word(), word());
    let v = Validity { not_before: t(a), not_after: t(b) };
    check(v.is_valid(t(a)) == (a <= b), "the first instant");
    check(v.is_valid(t(b)) == (a <= b), "the last instant");
    if a > 0 {
        check(!v.is_valid(t(a - 1)), "the instant before the first");
    }
    if b < u64::MAX {
        check(!v.is_valid(t(b + 1)), "the instant after the last");
    }
    cover("ends");
}
fn digits(c: &mut [u8]) {
    fill(c);
    for x in c.iter_mut() {
        *x = b'0' + (*x & 15);
        assume(*x <= b'9');
    }
}
/// A time in a layout, with two arbitrary digits at position 2 * `p` from the end (0 seconds,
/// 1 minutes, 2 hours, 3 days, 4 months, 5 years)
fn time(general: bool, base: &[u8; 14], p: usize) -> Vec<u8> {
    let mut c = if general { base.to_vec() } else { base[2..].to_vec() };
    let n = c.len();
    digits(&mut c[n - 2 - 2 * p..n - 2 * p]);
    c.push(b'Z');
    tlv(if general { 0x18 } else { 0x17 }, &c)
}
fn cert(validity: &[u8]) {
    let mut p = Parts::small();
    p.validity = tlv(0x30, validity);
    let b = p.build();
    let got = Certificate::parse(&b);
    let want = refm::cert(&b, (0, b.len()));
    observe(got.is_ok() as u64);
    match (&got, &want) {
        (Ok(c), Some(r)) => {
            let v = &c.tbs_certificate.value.validity;
            observe(v.not_before.value);
            observe(v.not_after.value);
            check(v.not_before.value == r.not_before, "not-before differs from the first time encoded");
            check(v.not_after.value == r.not_after, "not-after differs from the second time encoded");
            let now = word();
            check(v.is_valid(t(now)) == ((now >= r.not_before) & (now <= r.not_after)), "validity at an instant");
            cover("accepted");
        }
        (Err(_), None) => cover("rejected"),
        (Ok(_), None) => fail("malformed validity accepted"),
        (Err(_), Some(_)) => fail("well-formed validity rejected"),
    }
}
/// both layouts for both times; two digits of each arbitrary: `arg` & 7 in the first,
/// `arg` / 8 in the second
fn times() {
    let g = choose(0, 3);
    let a = time(g & 1 != 0, b"20010820103050", arg() as usize & 7);
    let b = time(g & 2 != 0, b"20310715204010", arg() as usize / 8);
    cert(&cat(&[&a, &b]));
}
/// a missing, surplus or other element
fn shape() {
    let t = |k: u64| -> Vec<u8> {
        match k {
            0 => tlv(0x17, b"210101000000Z"),
            1 => tlv(0x18, b"20490101000000Z"),
            2 => tlv(byte(), b"210101000000Z"),
            3 => tlv(byte(), b"20490101000000Z"),
            4 => vec![5, 0],
            _ => vec![],
        }
    };
    let a = t(choose(0, 5));
    let b = t(choose(0, 5));
    let c = t(choose(4, 5));
    cert(&cat(&[&a, &b, &c]));
}
/// one arbitrary octet anywhere in the validity
fn flip() {
    let mut v = cat(&[&tlv(0x17, b"210101000000Z"), &tlv(0x18, b"20490101000000Z")]);
    corrupt(&mut v);
    cert(&v);
}
/// cut off
fn cut() {
    let v = cat(&[&tlv(0x18, b"20210101000000Z"), &tlv(0x17, b"490101000000Z")]);
    let n = place(v.len() + 1);
    cert(&v[..n]);
}
/// the clock read, whatever it shows
fn now() {
    let r = UtcTime::now();
    let s = crate::rt::shown().unwrap_or_else(|| fail("the clock is not looked at"));
    match r {
        Ok(t) => {
            observe(t.value);
            check(s >= 0 && t.value == s as u64, "the current instant is not what the clock shows");
            cover("now");
        }
        Err(_) => {
            check(s < 0, "no instant although the clock shows one");
            cover("before 1970");
        }
    }
}
export! { h_c18_now => now, h_c18_window => window, h_c18_ends => ends, h_c18_times => times, h_c18_shape => shape, h_c18_flip => flip, h_c18_cut => cut }
