//! The work a call does grows no faster than in proportion to its input.
use crate::common::*;
use crate::sym::*;
use crate::touch;
use rx509::x509::Name;

/// Instructions in the engine; natively units of 4 ns, and the inputs are longer by the factor.
const BASE: u64 = 50_000;
/// Per octet, four to five times what it takes; `GROW` for the kinds of long input.
const EACH: u64 = 2_500;
const GROW: [u64; touch::SHAPES] = [800, 2_200, 2_500, 600, 800, 2_000, 300, 1_000, 1_000, 2_000, 600, 600, 800, 1_000, 2_000, 1_500];
#[cfg(not(feature = "native"))]
const FACTOR: usize = 1;
#[cfg(feature = "native")]
const FACTOR: usize = 64;

fn within(b: &[u8], f: fn(&[u8]), each: u64) {
    let t = work();
    f(b);
    let t = work() - t;
    check(t <= BASE * FACTOR as u64 + each * b.len() as u64, "the work is out of proportion to the input");
    cover("within");
}
fn name(b: &[u8]) {
    touch::name(&Name { inner: b })
}
fn entry() -> fn(&[u8]) {
    [touch::walk::<false> as fn(&[u8]), touch::certificate, touch::one, name][choose(0, 3) as usize]
}
/// every input of `arg` octets
fn all() {
    let f = entry();
    within(&bytes(arg() as usize), f, EACH);
}
/// one arbitrary octet anywhere
fn flip() {
    let mut b = if arg() == 0 { Parts::small().build() } else { Parts::full().build() };
    corrupt(&mut b);
    within(&b, touch::certificate, EACH);
}
/// long inputs: kind `arg % 16`, some `arg / 16` octets, the last octets possibly missing
fn long(n: usize, each: u64) {
    let k = arg() as usize % 16;
    let (b, f) = touch::shape::<false>(k, n);
    let cut = choose(0, 1) as usize;
    within(&b[..b.len() - cut], f, each);
}
fn grow() {
    let (k, n) = (arg() as usize % 16, arg() as usize / 16);
    #[cfg(feature = "native")]
    again(|| long(n * FACTOR, GROW[k]));
    // natively only the longer one is measured
    long(n, if FACTOR == 1 { GROW[k] } else { 1_000_000 });
}
/// The same, parsed only: for so much less work quadratic terms show.
const BARE: [u64; touch::SHAPES] = [500, 500, 200, 200, 200, 200, 200, 400, 400, 500, 400, 400, 600, 700, 400, 200];
fn long_bare(n: usize, each: u64) {
    let k = arg() as usize % 16;
    let (b, _) = touch::shape::<false>(k, n);
    let b = &b[..b.len() - choose(0, 1) as usize];
    let t = work();
    let ok = touch::bare(k, b);
    let t = work() - t;
    observe(ok as u64);
    check(t <= BASE * FACTOR as u64 + each * b.len() as u64, "the work of parsing is out of proportion to the input");
    cover("bare");
}
fn bare() {
    let (k, n) = (arg() as usize % 16, arg() as usize / 16);
    #[cfg(feature = "native")]
    again(|| long_bare(n * FACTOR, BARE[k]));
    long_bare(n, if FACTOR == 1 { BARE[k] } else { 1_000_000 });
}
export! { h_c32_all => all, h_c32_flip => flip, h_c32_grow => grow, h_c32_bare => bare }
