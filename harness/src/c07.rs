use crate::common::*;
use crate::refm::{Ev, K};
use crate::sym::*;
use rx509::der::*;

fn accessors(t: &ASNType, base: &[u8], e: &Ev) {
    if let (ASNType::BitString(x), K::Bits) = (t, e.k) {
        let (x, u) = (&x.value, e.v as usize);
        let size = e.len * 8 - u;
        check(x.size() == size, "size differs");
        match x.octets() {
            Some(o) => {
                check(u == 0, "octets although bits are unused");
                check(placed(o, base, e.range()), "octets differ");
                cover("octets");
            }
            None => {
                check(u != 0, "no octets although no bits are unused");
                cover("no octets");
            }
        }
        let mut n = 0;
        let mut ok = true;
        for bit in x.iter() {
            check(n < size, "more bits than the size says");
            ok &= bit == (base[e.start + n / 8] & (128 >> (n % 8)) != 0);
            n += 1;
        }
        check(n == size, "fewer bits than the size says");
        check(ok, "bits differ");
        // a second iteration starts afresh
        check(x.iter().count() == size, "second iteration differs");
        let mut it = x.iter();
        for _ in 0..size {
            it.next();
        }
        check(it.next().is_none() && it.next().is_none(), "iterator goes on after the end");
        observe(size as u64);
    }
}
fn verdict(ok: bool) {
    if ok {
        cover("accepted");
    } else {
        cover("rejected");
    }
}
/// all contents of `arg` octets
fn contents() {
    verdict(compare_walk_with(&tlv(3, &bytes(arg() as usize)), accessors));
}
/// many octets: all of them arbitrary
fn long() {
    let mut c = bytes(arg() as usize);
    c[0] = byte();
    verdict(compare_walk_with(&tlv(3, &c), accessors));
}
/// so many that a number of bits no longer fits 16 bits: octets at both ends and around the 65536th
/// bit are arbitrary
fn huge() {
    let n = arg() as usize;
    let mut c: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
    c[0] = choose(0, 8) as u8;
    for i in [1, 2, n / 2, n - 2, n - 1] {
        c[i] = byte();
    }
    if n > 8193 {
        c[8192] = byte();
        c[8193] = byte();
    }
    verdict(compare_walk_with(&tlv(3, &c), accessors));
}
fn nested() {
    let n = arg() as usize;
    let e = tlv(3, &bytes(n));
    verdict(compare_walk_with(&seq(&[&e, &tlv(0xa3, &e)]), accessors));
}
export! { h_c07_contents => contents, h_c07_long => long, h_c07_huge => huge, h_c07_nested => nested }
