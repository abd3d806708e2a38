use crate::common::*;
use crate::sym::*;
use rx509::der::*;

/// The bound: callbacks happen at most this much deeper than the first one.  Frames in the engine,
/// bytes in the native build (where the nesting is deeper by the same factor).
#[cfg(not(feature = "native"))]
const SLACK: u64 = 8;
#[cfg(feature = "native")]
const SLACK: u64 = 65536;
/// calls within the walk, whether or not there are callbacks in them
const DEEPEST: u64 = 48;
#[cfg(not(feature = "native"))]
const FACTOR: usize = 1;
#[cfg(feature = "native")]
const FACTOR: usize = 64;

struct Depth {
    first: u64,
    max: u64,
    begins: usize,
    ends: usize,
    leaf: usize,
    errors: usize,
}
impl Depth {
    fn see(&mut self) {
        let d = depth();
        if self.first == 0 {
            self.first = d;
        }
        if d > self.max {
            self.max = d;
        }
    }
}
impl ParseHandler for Depth {
    fn begin_constructed(&mut self) {
        self.begins += 1;
        self.see()
    }
    fn end_constructed(&mut self) {
        self.ends += 1;
        self.see()
    }
    fn on_type(&mut self, t: &ASNType) {
        if let ASNType::Null = t {
            self.leaf += 1;
        }
        self.see()
    }
    fn on_error(&mut self, _: &ASNError) {
        self.errors += 1;
        self.see()
    }
}
/// `arg` levels; the kinds of container repeat with a period of three, each any identifier octet
/// that is a container; elements before or after the nested one at each level of one phase; the
/// innermost contents well-formed or not.
fn nest() {
    let n = arg() as usize * FACTOR;
    let id = bytes(3);
    for k in 0..3 {
        assume(id[k] == 0x30 || id[k] == 0x31 || (id[k] >= 0xa0 && id[k] <= 0xbe) || (id[k] >= 0x80 && id[k] <= 0x9e));
    }
    let side = choose(0, 2);
    let bad = choose(0, 1) == 1;
    // built back to front
    let mut r: Vec<u8> = if bad { vec![9, 5] } else { vec![0, 5] };
    for k in 0..n {
        if side == 1 && k % 3 == 0 {
            r.extend([0, 4]); // before
        }
        let mut back = vec![];
        if side == 2 && k % 3 == 1 {
            back.extend([7, 1, 2]); // after
        }
        let mut m = back;
        m.extend_from_slice(&r);
        if !m.is_empty() && m.len() != r.len() {
            r = m;
        }
        let mut h = vec![];
        put_len(r.len(), &mut h);
        for x in h.iter().rev() {
            r.push(*x);
        }
        r.push(id[k % 3]);
    }
    r.reverse();
    let mut d = Depth { first: 0, max: 0, begins: 0, ends: 0, leaf: 0, errors: 0 };
    let (ok, deepest) = deepest(|| parse_all(&r, &mut d).is_ok());
    observe(ok as u64);
    check(d.begins == n, "not every container was entered");
    if bad {
        check(!ok && d.errors == 1, "defect not reported");
        cover("defect");
    } else {
        check(ok && d.leaf == 1 && d.ends == n, "walk failed");
        cover("walked");
    }
    check(deepest <= DEEPEST, "stack use grows with the nesting depth, between the callbacks");
    check(d.max - d.first <= SLACK, "stack use grows with the nesting depth");
}
export! { h_c12_nest => nest }
