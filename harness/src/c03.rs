use crate::common::*;
use crate::refm;
use crate::sym::*;
use rx509::der::*;

struct One {
    len: usize,
    at: usize,
    n: u64,
    seq: bool,
}
impl ParseHandler for One {
    fn begin_constructed(&mut self) {}
    fn end_constructed(&mut self) {}
    fn on_type(&mut self, t: &ASNType) {
        self.n += 1;
        match t {
            ASNType::OctetString(x) => {
                self.len = x.value.len();
                self.at = x.value.as_ptr() as usize;
            }
            ASNType::Integer(x) => {
                self.len = x.value.bytes.len();
                self.at = x.value.bytes.as_ptr() as usize;
            }
            ASNType::Sequence(x) => {
                self.len = x.value.len();
                self.at = x.value.as_ptr() as usize;
                self.seq = true;
            }
            _ => fail("element of another type"),
        }
    }
    fn on_error(&mut self, _: &ASNError) {}
}

/// A slice of `total` bytes that starts with `head`; what follows is never looked at.
#[cfg(not(feature = "native"))]
fn stretch(head: &[u8], total: usize) -> &'static [u8] {
    let b = head.to_vec();
    let s: &'static [u8] = Box::leak(b.into_boxed_slice());
    unsafe { core::slice::from_raw_parts(s.as_ptr(), total) }
}
#[cfg(feature = "native")]
fn stretch(head: &[u8], total: usize) -> &'static [u8] {
    let mut b = vec![0u8; total.max(head.len())];
    b[..head.len()].copy_from_slice(head);
    let s: &'static [u8] = Box::leak(b.into_boxed_slice());
    &s[..total]
}

/// Any five octets after the identifier, in an input that ends anywhere from the length octets to
/// exactly where the element says it does.
fn header() {
    let id = if arg() == 0 { 4 } else { 2 };
    let mut b = vec![id];
    b.extend(bytes(6));
    let want = refm::length(&b, 1, b.len());
    match want {
        Some((n, p)) => {
            let total = p as u64 + n;
            // accepted when everything is there
            let s = stretch(&b, total as usize);
            let mut h = One { len: 0, at: 0, n: 0, seq: false };
            let r = parse_all(s, &mut h);
            observe(r.is_ok() as u64);
            if id == 2 && n == 0 {
                check(r.is_err(), "empty integer accepted");
                return;
            }
            check(r.is_ok(), "well-formed length rejected");
            check(h.n == 1, "number of elements differs");
            check(h.len as u64 == n, "length differs from the one encoded");
            check((n == 0) | (h.at == s.as_ptr() as usize + p), "contents start elsewhere");
            cover("accepted");
            // and not when anything is missing
            let mut w = [0u8; 4];
            fill(&mut w);
            let missing = u32::from_le_bytes(w) as u64;
            assume(missing >= 1 && missing <= n);
            let s = stretch(&b, (total - missing) as usize);
            let mut h = One { len: 0, at: 0, n: 0, seq: false };
            let r = parse_all(s, &mut h);
            check(r.is_err(), "element longer than the input accepted");
            check(h.n == 0, "element longer than the input delivered");
            cover("cut short");
        }
        None => {
            // whatever follows
            let mut w = [0u8; 4];
            fill(&mut w);
            let total = u32::from_le_bytes(w) as u64 + 7;
            let s = stretch(&b, total as usize);
            let mut h = One { len: 0, at: 0, n: 0, seq: false };
            let r = parse_all(s, &mut h);
            observe(r.is_ok() as u64);
            check(r.is_err(), "bad length accepted");
            check(h.n == 0, "element with a bad length delivered");
            cover("rejected");
        }
    }
}
/// every input of `arg` bytes that starts with OCTET STRING, SEQUENCE or a context tag
fn short() {
    let n = arg() as usize;
    let mut b = bytes(n);
    b[0] = [4, 0x30, 0xa0][choose(0, 2) as usize];
    if compare_walk(&b) {
        cover("accepted")
    } else {
        cover("rejected")
    }
}
/// contents of `arg` octets, with every length form
fn sizes() {
    let n = arg() as usize;
    let form = choose(0, 5);
    let mut b = vec![4];
    match form {
        0 => b.push(n as u8),
        5 => b.extend([0x85, 0, (n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8]),
        k => {
            b.push(0x80 + k as u8);
            for i in (0..k).rev() {
                b.push((n >> (8 * i)) as u8);
            }
        }
    }
    b.extend(vec![0x11; n]);
    let inside = choose(0, 1) == 1;
    let b = if inside { tlv(0x30, &b) } else { b };
    if compare_walk(&b) {
        cover("accepted")
    } else {
        cover("rejected")
    }
}
export! { h_c03_header => header, h_c03_short => short, h_c03_sizes => sizes }
