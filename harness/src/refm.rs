//! Reference model: DER elements (X.690), and the X.509 structures built from them (RFC 5280),
//! written without looking at how rx509 is organised.  Positions are offsets into one buffer.

pub type R = (usize, usize); // start, end

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Bool,
    Int,
    Bits,
    Octets,
    Null,
    Oid,
    Utf8,
    Printable,
    Ia5,
    Time,
    Seq,
    Set,
    Ctx,
    Begin,
    End,
}

/// One element or bracket.
#[derive(Clone, Debug)]
pub struct Ev {
    pub k: K,
    /// content octets (Bits: without the count of unused bits)
    pub start: usize,
    pub len: usize,
    /// Bool: 0/1; Bits: unused bits; Time: seconds; Ctx: tag number
    pub v: u64,
    pub arcs: Vec<u32>,
}

impl Ev {
    pub fn new(k: K, r: R, v: u64) -> Ev {
        Ev { k, start: r.0, len: r.1 - r.0, v, arcs: vec![] }
    }
    pub fn range(&self) -> R {
        (self.start, self.start + self.len)
    }
    pub fn container(&self) -> bool {
        matches!(self.k, K::Seq | K::Set | K::Ctx)
    }
}

/// Length octets at `p`: (length, position after them)
pub fn length(b: &[u8], p: usize, end: usize) -> Option<(u64, usize)> {
    if p >= end {
        return None;
    }
    let f = b[p];
    if f < 128 {
        return Some((f as u64, p + 1));
    }
    let n = (f - 128) as usize;
    if n == 0 || n > 4 {
        return None;
    }
    if n > end - p - 1 {
        return None;
    }
    let mut v = 0u64;
    for i in 0..n {
        v = v * 256 + b[p + 1 + i] as u64;
    }
    // could it have been written with fewer octets?
    let short = if n == 1 { v < 128 } else { v >> (8 * (n - 1)) == 0 };
    if short {
        return None;
    }
    Some((v, p + 1 + n))
}

/// Type denoted by an identifier octet.
pub fn kind(id: u8) -> Option<K> {
    Some(match id {
        0x01 => K::Bool,
        0x02 => K::Int,
        0x03 => K::Bits,
        0x04 => K::Octets,
        0x05 => K::Null,
        0x06 => K::Oid,
        0x0c => K::Utf8,
        0x13 => K::Printable,
        0x16 => K::Ia5,
        0x17 | 0x18 => K::Time,
        0x30 => K::Seq,
        0x31 => K::Set,
        _ => {
            if id >= 0x80 && id < 0xc0 && id != 0x9f && id != 0xbf {
                K::Ctx
            } else {
                return None;
            }
        }
    })
}

pub fn oid(c: &[u8]) -> Option<Vec<u32>> {
    let mut subs: Vec<u32> = vec![];
    let mut i = 0;
    if c.is_empty() {
        return None;
    }
    while i < c.len() {
        if c[i] == 0x80 {
            return None;
        }
        let mut v = 0u32;
        let mut n = 0;
        loop {
            if i >= c.len() || n == 4 {
                return None;
            }
            v = v * 128 + (c[i] % 128) as u32;
            n += 1;
            i += 1;
            if c[i - 1] < 128 {
                break;
            }
        }
        subs.push(v);
    }
    let s = subs[0];
    let mut r = vec![];
    if s < 40 {
        r.push(0);
        r.push(s);
    } else if s < 80 {
        r.push(1);
        r.push(s - 40);
    } else {
        r.push(2);
        r.push(s - 80);
    }
    r.extend_from_slice(&subs[1..]);
    Some(r)
}

/// Canonical encoding of arcs (inverse of `oid`).
pub fn oid_encode(arcs: &[u32]) -> Vec<u8> {
    fn put(v: u64, out: &mut Vec<u8>) {
        let mut n = 1;
        while n < 5 && (v >> (7 * n)) != 0 {
            n += 1;
        }
        for k in (0..n).rev() {
            let d = ((v >> (7 * k)) & 127) as u8;
            out.push(if k > 0 { d | 128 } else { d });
        }
    }
    let mut out = vec![];
    put(arcs[0] as u64 * 40 + arcs[1] as u64, &mut out);
    for a in &arcs[2..] {
        put(*a as u64, &mut out);
    }
    out
}

pub fn utf8(c: &[u8]) -> bool {
    // Unicode standard, table 3-7
    let n = c.len();
    let cont = |i: usize, lo: u8, hi: u8| i < n && c[i] >= lo && c[i] <= hi;
    let mut i = 0;
    while i < n {
        let b = c[i];
        if b < 0x80 {
            i += 1;
        } else if b < 0xc2 {
            return false;
        } else if b < 0xe0 {
            if !cont(i + 1, 0x80, 0xbf) {
                return false;
            }
            i += 2;
        } else if b < 0xf0 {
            let (lo, hi) = match b {
                0xe0 => (0xa0, 0xbf),
                0xed => (0x80, 0x9f),
                _ => (0x80, 0xbf),
            };
            if !cont(i + 1, lo, hi) || !cont(i + 2, 0x80, 0xbf) {
                return false;
            }
            i += 3;
        } else if b < 0xf5 {
            let (lo, hi) = match b {
                0xf0 => (0x90, 0xbf),
                0xf4 => (0x80, 0x8f),
                _ => (0x80, 0xbf),
            };
            if !cont(i + 1, lo, hi) || !cont(i + 2, 0x80, 0xbf) || !cont(i + 3, 0x80, 0xbf) {
                return false;
            }
            i += 4;
        } else {
            return false;
        }
    }
    true
}

/// Days from 1970-01-01 to a proleptic Gregorian date on or after it.
pub fn days(y: u64, m: u64, d: u64) -> u64 {
    // years run from 1 March; 400 of them have 146097 days
    let y = if m <= 2 { y - 1 } else { y };
    let era = y / 400;
    let yoe = y % 400;
    let mp = if m > 2 { m - 3 } else { m + 9 };
    let doy = (153 * mp + 2) / 5 + d - 1;
    era * 146_097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719_468
}

pub fn month_len(y: u64, m: u64) -> u64 {
    if m == 2 {
        let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
        return if leap { 29 } else { 28 };
    }
    if m == 4 || m == 6 || m == 9 || m == 11 {
        30
    } else {
        31
    }
}

pub fn time(c: &[u8], generalized: bool) -> Option<u64> {
    let n = if generalized { 15 } else { 13 };
    if c.len() != n {
        return None;
    }
    for k in 0..n - 1 {
        if c[k] < b'0' || c[k] > b'9' {
            return None;
        }
    }
    if c[n - 1] != b'Z' {
        return None;
    }
    let two = |k: usize| (c[k] - b'0') as u64 * 10 + (c[k + 1] - b'0') as u64;
    let (y, k) = if generalized {
        (two(0) * 100 + two(2), 4)
    } else {
        let yy = two(0);
        (if yy >= 50 { 1900 + yy } else { 2000 + yy }, 2)
    };
    let (mo, d, h, mi, s) = (two(k), two(k + 2), two(k + 4), two(k + 6), two(k + 8));
    if mo < 1 || mo > 12 || h > 23 || mi > 59 || s > 59 || d < 1 {
        return None;
    }
    if d > month_len(y, mo) || y < 1970 {
        return None;
    }
    Some(((days(y, mo, d) * 24 + h) * 60 + mi) * 60 + s)
}

/// Contents of an element of kind `k` (identifier `id`) in place at `r`.
pub fn content(b: &[u8], k: K, id: u8, r: R) -> Option<Ev> {
    let c = &b[r.0..r.1];
    let e = Ev::new(k, r, 0);
    Some(match k {
        K::Bool => {
            if c.len() != 1 {
                return None;
            }
            match c[0] {
                0 => Ev::new(k, r, 0),
                255 => Ev::new(k, r, 1),
                _ => return None,
            }
        }
        K::Int => {
            if c.is_empty() {
                return None;
            }
            e
        }
        K::Null => {
            if !c.is_empty() {
                return None;
            }
            e
        }
        K::Bits => {
            if c.is_empty() || c[0] > 7 || (c.len() == 1 && c[0] != 0) {
                return None;
            }
            Ev::new(k, (r.0 + 1, r.1), c[0] as u64)
        }
        K::Oid => {
            let mut e = e;
            e.arcs = oid(c)?;
            e
        }
        K::Utf8 | K::Printable | K::Ia5 => {
            if !utf8(c) {
                return None;
            }
            e
        }
        K::Time => Ev::new(k, r, time(c, id == 0x18)?),
        K::Ctx => Ev::new(k, r, (id & 31) as u64),
        _ => e,
    })
}

/// The element at `p`, and the position after it.
pub fn elem(b: &[u8], p: usize, end: usize) -> Option<(Ev, usize)> {
    if p >= end {
        return None;
    }
    let id = b[p];
    let k = kind(id)?;
    let (n, q) = length(b, p + 1, end)?;
    if n > (end - q) as u64 {
        return None;
    }
    let n = n as usize;
    Some((content(b, k, id, (q, q + n))?, q + n))
}

/// Depth-first walk; true when all of it is well formed.
pub fn walk(b: &[u8], r: R, out: &mut Vec<Ev>) -> bool {
    let mut p = r.0;
    while p < r.1 {
        match elem(b, p, r.1) {
            None => return false,
            Some((e, q)) => {
                p = q;
                let (c, ir) = (e.container(), e.range());
                out.push(e);
                if c {
                    out.push(Ev::new(K::Begin, (0, 0), 0));
                    if !walk(b, ir, out) {
                        return false;
                    }
                    out.push(Ev::new(K::End, (0, 0), 0));
                }
            }
        }
    }
    true
}

/// Cursor over the elements of one container.
#[derive(Clone)]
pub struct Cur<'b> {
    pub b: &'b [u8],
    pub p: usize,
    pub end: usize,
}
impl<'b> Cur<'b> {
    pub fn new(b: &'b [u8], r: R) -> Cur<'b> {
        Cur { b, p: r.0, end: r.1 }
    }
    pub fn at_end(&self) -> bool {
        self.p == self.end
    }
    pub fn any(&mut self) -> Option<Ev> {
        let (e, q) = elem(self.b, self.p, self.end)?;
        self.p = q;
        Some(e)
    }
    pub fn want(&mut self, k: K) -> Option<Ev> {
        let e = self.any()?;
        if e.k == k {
            Some(e)
        } else {
            None
        }
    }
    /// Is the next identifier octet of kind `k`?
    pub fn next_is(&self, k: K) -> bool {
        !self.at_end() && kind(self.b[self.p]) == Some(k)
    }
    /// `Some(None)` when absent
    pub fn opt_ctx(&mut self, tag: u8) -> Option<Option<Ev>> {
        if self.next_is(K::Ctx) && self.b[self.p] % 32 == tag {
            return Some(Some(self.want(K::Ctx)?));
        }
        Some(None)
    }
    pub fn done(&self) -> Option<()> {
        if self.at_end() {
            Some(())
        } else {
            None
        }
    }
}

// ------------------------------------------------------------------ certificates

#[derive(Clone, Debug)]
pub struct Alg {
    pub oid: Vec<u32>,
    pub params: Option<Ev>,
}
#[derive(Clone, Debug)]
pub struct Cert {
    pub tbs: R,
    pub version: u8,
    pub serial: R,
    pub sig: Alg,
    pub issuer: R,
    pub not_before: u64,
    pub not_after: u64,
    pub subject: R,
    pub key_alg: Alg,
    pub key: Ev,
    pub issuer_uid: Option<Ev>,
    pub subject_uid: Option<Ev>,
    pub exts: Option<R>,
    pub sig_alg: Alg,
    pub sig_value: Ev,
}

pub fn int32(c: &[u8]) -> Option<i64> {
    if c.is_empty() || c.len() > 4 {
        return None;
    }
    let mut v = 0i64;
    for x in c {
        v = v * 256 + *x as i64;
    }
    if c[0] >= 128 {
        v -= 1i64 << (8 * c.len());
    }
    Some(v)
}

pub fn alg(b: &[u8], r: R) -> Option<Alg> {
    let mut c = Cur::new(b, r);
    let o = c.want(K::Oid)?;
    let params = if c.at_end() { None } else { Some(c.any()?) };
    c.done()?;
    Some(Alg { oid: o.arcs, params })
}

pub fn cert(b: &[u8], r: R) -> Option<Cert> {
    let mut top = Cur::new(b, r);
    let outer = top.want(K::Seq)?;
    top.done()?;
    let mut o = Cur::new(b, outer.range());
    let tbs = o.want(K::Seq)?;
    let sig_alg = o.want(K::Seq)?;
    let sig_value = o.want(K::Bits)?;
    o.done()?;
    let sig_alg = alg(b, sig_alg.range())?;

    let mut t = Cur::new(b, tbs.range());
    let version = match t.opt_ctx(0)? {
        None => 1,
        Some(e) => {
            let mut v = Cur::new(b, e.range());
            let i = v.want(K::Int)?;
            v.done()?;
            match int32(&b[i.start..i.start + i.len]) {
                Some(0) => 1,
                Some(1) => 2,
                Some(2) => 3,
                _ => return None,
            }
        }
    };
    let serial = t.want(K::Int)?;
    let sig = alg(b, t.want(K::Seq)?.range())?;
    let issuer = t.want(K::Seq)?;
    let validity = t.want(K::Seq)?;
    let mut v = Cur::new(b, validity.range());
    let (nb, na) = (v.want(K::Time)?, v.want(K::Time)?);
    v.done()?;
    let subject = t.want(K::Seq)?;
    let spki = t.want(K::Seq)?;
    let mut s = Cur::new(b, spki.range());
    let key_alg = alg(b, s.want(K::Seq)?.range())?;
    let key = s.want(K::Bits)?;
    s.done()?;
    let uid = |e: Option<Ev>| -> Option<Option<Ev>> {
        match e {
            None => Some(None),
            Some(e) => Some(Some(content(b, K::Bits, 3, e.range())?)),
        }
    };
    let e = t.opt_ctx(1)?;
    let issuer_uid = uid(e)?;
    let e = t.opt_ctx(2)?;
    let subject_uid = uid(e)?;
    let exts = t.opt_ctx(3)?.map(|e| e.range());
    t.done()?;
    Some(Cert {
        tbs: tbs.range(),
        version,
        serial: serial.range(),
        sig,
        issuer: issuer.range(),
        not_before: nb.v,
        not_after: na.v,
        subject: subject.range(),
        key_alg,
        key,
        issuer_uid,
        subject_uid,
        exts,
        sig_alg,
        sig_value,
    })
}

// ------------------------------------------------------------------ names

/// Components in the order CN, C, L, ST, O, OU.
pub fn name(b: &[u8], r: R) -> Option<[Option<R>; 6]> {
    let mut out: [Option<R>; 6] = [None; 6];
    let mut c = Cur::new(b, r);
    while !c.at_end() {
        let set = c.want(K::Set)?;
        let mut s = Cur::new(b, set.range());
        loop {
            let ava = s.want(K::Seq)?;
            let mut a = Cur::new(b, ava.range());
            let o = a.want(K::Oid)?;
            let v = a.any()?;
            a.done()?;
            if o.arcs.len() == 4 && o.arcs[0] == 2 && o.arcs[1] == 5 && o.arcs[2] == 4 {
                let which = match o.arcs[3] {
                    3 => 0,
                    6 => 1,
                    7 => 2,
                    8 => 3,
                    10 => 4,
                    11 => 5,
                    _ => 99,
                };
                if which < 6 {
                    if !matches!(v.k, K::Utf8 | K::Printable | K::Ia5) || out[which].is_some() {
                        return None;
                    }
                    out[which] = Some(v.range());
                }
            }
            if s.at_end() {
                break;
            }
        }
    }
    Some(out)
}

// ------------------------------------------------------------------ extensions

#[derive(Clone, Debug)]
pub enum Gn {
    Text(u8, R),
    Ip(R),
    Id(Vec<u32>),
}
#[derive(Clone, Debug)]
pub enum Ext {
    Ski(R),
    /// bit k set: usage k
    Ku(u32),
    San(Vec<Gn>),
    Bc(bool, Option<i64>),
    /// 0..=5 in the order server, client, code, e-mail, time stamping, OCSP
    Eku(Vec<u8>),
    Role(R),
    Unknown(R),
}
#[derive(Clone, Debug)]
pub struct Extn {
    pub oid: Vec<u32>,
    pub critical: bool,
    pub body: Ext,
}

pub fn outer_seq(b: &[u8], r: R) -> Option<Cur> {
    let mut c = Cur::new(b, r);
    let s = c.want(K::Seq)?;
    c.done()?;
    Some(Cur::new(b, s.range()))
}
fn only(b: &[u8], r: R, k: K) -> Option<Ev> {
    let mut c = Cur::new(b, r);
    let e = c.want(k)?;
    c.done()?;
    Some(e)
}

pub fn ku(b: &[u8], r: R) -> Option<u32> {
    let e = only(b, r, K::Bits)?;
    let size = e.len * 8 - e.v as usize;
    let mut flags = 0u32;
    for k in 0..9 {
        if k < size {
            let bit = b[e.start + k / 8] >> (7 - k % 8) & 1;
            flags |= (bit as u32) << k;
        }
    }
    Some(flags)
}
pub fn bc(b: &[u8], r: R) -> Option<(bool, Option<i64>)> {
    let mut c = outer_seq(b, r)?;
    let ca = if c.next_is(K::Bool) { c.want(K::Bool)?.v == 1 } else { false };
    let path = if c.next_is(K::Int) {
        let i = c.want(K::Int)?;
        Some(int32(&b[i.start..i.start + i.len])?)
    } else {
        None
    };
    c.done()?;
    Some((ca, path))
}
pub fn san(b: &[u8], r: R) -> Option<Vec<Gn>> {
    let mut c = outer_seq(b, r)?;
    let mut out = vec![];
    while !c.at_end() {
        let e = c.want(K::Ctx)?;
        let v = &b[e.start..e.start + e.len];
        out.push(match e.v {
            1 | 2 | 6 => {
                if !utf8(v) {
                    return None;
                }
                Gn::Text(e.v as u8, e.range())
            }
            7 => Gn::Ip(e.range()),
            8 => Gn::Id(oid(v)?),
            _ => return None,
        });
    }
    Some(out)
}
pub fn eku(b: &[u8], r: R) -> Option<Vec<u8>> {
    let mut c = outer_seq(b, r)?;
    let mut out = vec![];
    while !c.at_end() {
        let a = c.want(K::Oid)?.arcs;
        if a.len() != 9 || a[..8] != [1, 3, 6, 1, 5, 5, 7, 3] {
            return None;
        }
        out.push(match a[8] {
            1 => 0,
            2 => 1,
            3 => 2,
            4 => 3,
            8 => 4,
            9 => 5,
            _ => return None,
        });
    }
    Some(out)
}

/// Contents of one Extension SEQUENCE.
pub fn extension(b: &[u8], r: R) -> Option<Extn> {
    let mut c = Cur::new(b, r);
    let o = c.want(K::Oid)?.arcs;
    let critical = if c.next_is(K::Bool) { c.want(K::Bool)?.v == 1 } else { false };
    let v = c.want(K::Octets)?.range();
    c.done()?;
    let ce = |n: u32| o.len() == 4 && o[0] == 2 && o[1] == 5 && o[2] == 29 && o[3] == n;
    let body = if ce(14) {
        Ext::Ski(only(b, v, K::Octets)?.range())
    } else if ce(15) {
        Ext::Ku(ku(b, v)?)
    } else if ce(17) {
        Ext::San(san(b, v)?)
    } else if ce(19) {
        let (ca, p) = bc(b, v)?;
        Ext::Bc(ca, p)
    } else if ce(37) {
        Ext::Eku(eku(b, v)?)
    } else if o.len() == 9 && o[..] == [1, 3, 6, 1, 4, 1, 50316, 802, 1] {
        Ext::Role(only(b, v, K::Utf8)?.range())
    } else {
        Ext::Unknown(v)
    };
    Some(Extn { oid: o, critical, body })
}

/// The extensions field: a SEQUENCE OF Extension.
pub fn extensions(b: &[u8], r: R) -> Option<Vec<Extn>> {
    let mut c = outer_seq(b, r)?;
    let mut out = vec![];
    while !c.at_end() {
        let s = c.want(K::Seq)?;
        out.push(extension(b, s.range())?);
    }
    Some(out)
}
