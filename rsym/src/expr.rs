//! Hash-consed bit-vector expressions (width 1..=128) with local simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type Eid = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cmp {
    Eq,
    Ult,
    Slt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Sym(u32),
    Bin(Op, Eid, Eid),
    Cmp(Cmp, Eid, Eid),
    Concat(Eid, Eid),
    Extract(Eid, u32),
    ZExt(Eid),
    SExt(Eid),
    Ite(Eid, Eid, Eid),
}

pub const MAX_SYMS: usize = 512;
#[derive(Clone, Copy, PartialEq, Eq, Default, Debug)]
pub struct Sup(pub [u64; 8]);
impl Sup {
    pub fn or(&self, o: &Sup) -> Sup {
        let mut r = *self;
        for i in 0..8 {
            r.0[i] |= o.0[i];
        }
        r
    }
    pub fn meets(&self, o: &Sup) -> bool {
        (0..8).any(|i| self.0[i] & o.0[i] != 0)
    }
    pub fn one(i: u32) -> Sup {
        let mut r = Sup::default();
        r.0[(i / 64) as usize] |= 1 << (i % 64);
        r
    }
    pub fn has(&self, i: u32) -> bool {
        self.0[(i / 64) as usize] >> (i % 64) & 1 != 0
    }
    pub fn iter(&self) -> impl Iterator<Item = u32> + '_ {
        (0..MAX_SYMS as u32).filter(move |i| self.has(*i))
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}

/// Concrete semantics of the binary operators, shared by interpreter and evaluator.
/// Division by zero yields the SMT-LIB value (guarded by the compiled code before it happens).
pub fn cbin(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sext(a, w) >> s) as u128
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
    }) & m
}
pub fn ccmp(c: Cmp, w: u32, a: u128, b: u128) -> bool {
    match c {
        Cmp::Eq => a == b,
        Cmp::Ult => a < b,
        Cmp::Slt => sext(a, w) < sext(b, w),
    }
}

#[derive(Clone, Copy)]
pub struct Info {
    pub n: Node,
    pub w: u32,
    pub sup: u32, // index in sups
    pub max: u128,
    pub min: u128,
    pub tz: u32, // known trailing zero bits
    pub h: u64,  // structural hash (independent of creation order)
}

pub struct Arena {
    pub nodes: Vec<Info>,
    map: FxMap<(Node, u32), Eid>,
    pub sups: Vec<Sup>,
    supmap: HashMap<[u64; 8], u32>,
    stamp: Vec<u32>,
    memo: Vec<u128>,
    cur: u32,
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            nodes: vec![],
            map: Default::default(),
            sups: vec![Sup::default()],
            supmap: HashMap::new(),
            stamp: vec![],
            memo: vec![],
            cur: 0,
        };
        a.supmap.insert([0; 8], 0);
        a.c(0, 1); // Eid 0 is reserved (used as "no symbolic byte")
        a
    }
    pub fn w(&self, e: Eid) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn n(&self, e: Eid) -> Node {
        self.nodes[e as usize].n
    }
    pub fn sup(&self, e: Eid) -> &Sup {
        &self.sups[self.nodes[e as usize].sup as usize]
    }
    pub fn max(&self, e: Eid) -> u128 {
        self.nodes[e as usize].max
    }
    pub fn min(&self, e: Eid) -> u128 {
        self.nodes[e as usize].min
    }
    pub fn tz(&self, e: Eid) -> u32 {
        self.nodes[e as usize].tz
    }
    pub fn konst(&self, e: Eid) -> Option<u128> {
        match self.n(e) {
            Node::Const(c) => Some(c),
            _ => None,
        }
    }

    fn intern(&mut self, n: Node, w: u32) -> Eid {
        if let Some(e) = self.map.get(&(n, w)) {
            return *e;
        }
        let id = self.nodes.len() as Eid;
        let sup = match n {
            Node::Const(_) => Sup::default(),
            Node::Sym(i) => Sup::one(i),
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => {
                self.sup(a).or(self.sup(b))
            }
            Node::Extract(a, _) | Node::ZExt(a) | Node::SExt(a) => *self.sup(a),
            Node::Ite(c, a, b) => self.sup(c).or(self.sup(a)).or(self.sup(b)),
        };
        let sid = match self.supmap.get(&sup.0) {
            Some(s) => *s,
            None => {
                let s = self.sups.len() as u32;
                self.sups.push(sup);
                self.supmap.insert(sup.0, s);
                s
            }
        };
        let m = mask(w);
        let (mut min, mut max) = (0, m);
        let mut tz = 0;
        match n {
            Node::Const(c) => {
                min = c;
                max = c;
                tz = if c == 0 { w } else { c.trailing_zeros() };
            }
            Node::ZExt(a) => {
                min = self.min(a);
                max = self.max(a);
                tz = self.tz(a);
            }
            Node::Concat(h, l) => {
                let lw = self.w(l);
                min = self.min(h) << lw | self.min(l);
                max = self.max(h) << lw | self.max(l);
                tz = if self.tz(l) == lw { lw + self.tz(h) } else { self.tz(l) };
            }
            Node::Ite(_, a, b) => {
                min = self.min(a).min(self.min(b));
                max = self.max(a).max(self.max(b));
                tz = self.tz(a).min(self.tz(b));
            }
            Node::Bin(op, a, b) => {
                let (al, ah, bl, bh) = (self.min(a), self.max(a), self.min(b), self.max(b));
                match op {
                    Op::Add => {
                        if let (Some(h), Some(l)) = (ah.checked_add(bh), al.checked_add(bl)) {
                            if h <= m {
                                min = l;
                                max = h;
                            }
                        }
                        tz = self.tz(a).min(self.tz(b));
                    }
                    Op::Sub => {
                        if al >= bh {
                            min = al - bh;
                            max = ah - bl;
                        }
                        tz = self.tz(a).min(self.tz(b));
                    }
                    Op::Mul => {
                        if let Some(h) = ah.checked_mul(bh) {
                            if h <= m {
                                min = al * bl;
                                max = h;
                            }
                        }
                        tz = (self.tz(a) + self.tz(b)).min(w);
                    }
                    Op::UDiv => {
                        if bl > 0 {
                            min = al / bh;
                            max = ah / bl;
                        }
                    }
                    Op::URem => {
                        if bl > 0 {
                            max = ah.min(bh - 1);
                        }
                    }
                    Op::And => {
                        max = ah.min(bh);
                        tz = self.tz(a).max(self.tz(b));
                    }
                    Op::Or => {
                        min = al.max(bl);
                        let hi = ah | bh;
                        max = if hi == 0 { 0 } else { mask(128 - hi.leading_zeros()) & m };
                        tz = self.tz(a).min(self.tz(b));
                    }
                    Op::Xor => {
                        let hi = ah | bh;
                        max = if hi == 0 { 0 } else { mask(128 - hi.leading_zeros()) & m };
                        tz = self.tz(a).min(self.tz(b));
                    }
                    Op::LShr => {
                        max = ah;
                    }
                    _ => {}
                }
            }
            _ => {}
        }
        let h = {
            let mut f = Fx::default();
            f.write_u64(w as u64);
            let hh = |e: Eid| self.nodes[e as usize].h;
            match n {
                Node::Const(c) => {
                    f.write_u64(1);
                    f.write_u128(c)
                }
                Node::Sym(i) => {
                    f.write_u64(2);
                    f.write_u64(i as u64)
                }
                Node::Bin(op, a, b) => {
                    f.write_u64(16 + op as u64);
                    f.write_u64(hh(a));
                    f.write_u64(hh(b))
                }
                Node::Cmp(op, a, b) => {
                    f.write_u64(40 + op as u64);
                    f.write_u64(hh(a));
                    f.write_u64(hh(b))
                }
                Node::Concat(a, b) => {
                    f.write_u64(50);
                    f.write_u64(hh(a));
                    f.write_u64(hh(b))
                }
                Node::Extract(a, lo) => {
                    f.write_u64(51);
                    f.write_u64(hh(a));
                    f.write_u64(lo as u64)
                }
                Node::ZExt(a) => {
                    f.write_u64(52);
                    f.write_u64(hh(a))
                }
                Node::SExt(a) => {
                    f.write_u64(53);
                    f.write_u64(hh(a))
                }
                Node::Ite(c, a, b) => {
                    f.write_u64(54);
                    f.write_u64(hh(c));
                    f.write_u64(hh(a));
                    f.write_u64(hh(b))
                }
            }
            let x = f.finish();
            (x ^ (x >> 32)).wrapping_mul(0x9E37_79B9_7F4A_7C15)
        };
        self.nodes.push(Info { n, w, sup: sid, max, min, tz: tz.min(w), h });
        self.map.insert((n, w), id);
        id
    }

    pub fn c(&mut self, v: u128, w: u32) -> Eid {
        self.intern(Node::Const(v & mask(w)), w)
    }
    pub fn sym(&mut self, i: u32) -> Eid {
        self.intern(Node::Sym(i), 8)
    }
    pub fn tru(&mut self) -> Eid {
        self.c(1, 1)
    }
    pub fn fal(&mut self) -> Eid {
        self.c(0, 1)
    }

    pub fn not1(&mut self, a: Eid) -> Eid {
        debug_assert!(self.w(a) == 1);
        match self.n(a) {
            Node::Const(c) => self.c(c ^ 1, 1),
            Node::Bin(Op::Xor, x, y) if self.konst(y) == Some(1) => x,
            _ => {
                let one = self.c(1, 1);
                self.intern(Node::Bin(Op::Xor, a, one), 1)
            }
        }
    }
    fn is_not_of(&self, a: Eid, b: Eid) -> bool {
        match self.n(a) {
            Node::Bin(Op::Xor, x, y) if x == b && self.w(a) == 1 => self.konst(y) == Some(1),
            _ => false,
        }
    }

    pub fn zext(&mut self, a: Eid, w: u32) -> Eid {
        let aw = self.w(a);
        assert!(w >= aw);
        if aw == w {
            return a;
        }
        match self.n(a) {
            Node::Const(c) => self.c(c, w),
            Node::ZExt(x) => self.zext(x, w),
            _ => self.intern(Node::ZExt(a), w),
        }
    }
    pub fn sext(&mut self, a: Eid, w: u32) -> Eid {
        let aw = self.w(a);
        assert!(w >= aw);
        if aw == w {
            return a;
        }
        if self.max(a) < 1u128 << (aw - 1) {
            return self.zext(a, w);
        }
        match self.n(a) {
            Node::Const(c) => self.c(sext(c, aw) as u128, w),
            Node::SExt(x) => self.sext(x, w),
            _ => self.intern(Node::SExt(a), w),
        }
    }
    pub fn trunc(&mut self, a: Eid, w: u32) -> Eid {
        self.extract(a, 0, w)
    }
    /// bits lo..lo+w
    pub fn extract(&mut self, a: Eid, lo: u32, w: u32) -> Eid {
        let aw = self.w(a);
        assert!(lo + w <= aw, "extract {} {} of {}", lo, w, aw);
        if w == aw {
            return a;
        }
        if self.max(a) >> lo == 0 {
            return self.c(0, w);
        }
        match self.n(a) {
            Node::Const(c) => self.c(c >> lo, w),
            Node::Extract(x, l2) => self.extract(x, lo + l2, w),
            Node::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    self.c(0, w)
                } else if lo + w <= xw {
                    self.extract(x, lo, w)
                } else {
                    let y = self.extract(x, lo, xw - lo);
                    self.zext(y, w)
                }
            }
            Node::SExt(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    self.extract(x, lo, w)
                } else if lo < xw {
                    let y = self.extract(x, lo, xw - lo);
                    self.sext(y, w)
                } else {
                    let y = self.extract(x, xw - 1, 1);
                    self.sext(y, w)
                }
            }
            Node::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    self.extract(h, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(l, lo, w)
                } else {
                    let y = self.extract(l, lo, lw - lo);
                    let z = self.extract(h, 0, lo + w - lw);
                    self.concat(z, y)
                }
            }
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                self.bin(op, x, y)
            }
            Node::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 => {
                let x = self.extract(x, 0, w);
                let y = self.extract(y, 0, w);
                self.bin(op, x, y)
            }
            Node::Ite(c, x, y) if self.konst(x).is_some() || self.konst(y).is_some() => {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                self.ite(c, x, y)
            }
            _ => self.intern(Node::Extract(a, lo), w),
        }
    }
    pub fn concat(&mut self, h: Eid, l: Eid) -> Eid {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        assert!(w <= 128);
        match (self.n(h), self.n(l)) {
            (Node::Const(a), Node::Const(b)) => return self.c(a << lw | b, w),
            (Node::Const(0), _) => return self.zext(l, w),
            (Node::Extract(a, la), Node::Extract(b, lb)) if a == b && la == lb + lw => {
                return self.extract(a, lb, w)
            }
            (Node::Extract(a, la), Node::Concat(m, b)) => {
                if let Node::Extract(x, lx) = self.n(m) {
                    if x == a && la == lx + self.w(m) {
                        let t = self.extract(a, lx, hw + self.w(m));
                        return self.concat(t, b);
                    }
                }
            }
            (Node::ZExt(x), _) => {
                // concat(zext x, l) = zext(concat(x,l))
                let t = self.concat(x, l);
                return self.zext(t, w);
            }
            _ => {}
        }
        if let (Node::Extract(a, la), _) = (self.n(h), 0) {
            if a == l && la == lw && self.w(a) == lw {
                // impossible shape (la==width) but keep safe
            }
        }
        self.intern(Node::Concat(h, l), w)
    }
    pub fn ite(&mut self, c: Eid, a: Eid, b: Eid) -> Eid {
        if a == b {
            return a;
        }
        if let Some(k) = self.konst(c) {
            return if k != 0 { a } else { b };
        }
        let w = self.w(a);
        if w == 1 {
            match (self.konst(a), self.konst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not1(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not1(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        if let Node::Bin(Op::Xor, x, y) = self.n(c) {
            if self.konst(y) == Some(1) {
                return self.ite(x, b, a);
            }
        }
        if let Node::Ite(c2, x, _) = self.n(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let Node::Ite(c2, _, y) = self.n(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        self.intern(Node::Ite(c, a, b), w)
    }

    fn narrow_bits(v: u128) -> u32 {
        let n = 128 - v.leading_zeros();
        ((n + 7) / 8 * 8).max(8)
    }

    pub fn bin(&mut self, op: Op, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        assert_eq!(w, self.w(b), "width mismatch in {:?}", op);
        let (ka, kb) = (self.konst(a), self.konst(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.c(cbin(op, w, x, y), w);
        }
        let m = mask(w);
        // constants to the right for commutative operators
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor);
        if comm && (ka.is_some() || (kb.is_none() && self.nodes[a as usize].h > self.nodes[b as usize].h)) {
            return self.bin_n(op, b, a, w, m);
        }
        self.bin_n(op, a, b, w, m)
    }
    fn bin_n(&mut self, op: Op, a: Eid, b: Eid, w: u32, m: u128) -> Eid {
        let (ka, kb) = (self.konst(a), self.konst(b));
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                if let (Some(k), Node::Bin(Op::Add, x, y)) = (kb, self.n(a)) {
                    if let Some(k2) = self.konst(y) {
                        let c = self.c(k.wrapping_add(k2), w);
                        return self.bin(Op::Add, x, c);
                    }
                }
                if let Node::Bin(Op::Add, x, y) = self.n(a) {
                    if self.konst(y).is_some() && kb.is_none() {
                        let t = self.bin(Op::Add, x, b);
                        return self.bin(Op::Add, t, y);
                    }
                }
                if let Node::Bin(Op::Add, x, y) = self.n(b) {
                    if self.konst(y).is_some() {
                        let t = self.bin(Op::Add, a, x);
                        return self.bin(Op::Add, t, y);
                    }
                }
                if let Some(r) = self.try_narrow(op, a, b, w) {
                    return r;
                }
            }
            Op::Sub => {
                if kb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.c(0, w);
                }
                if let Some(k) = kb {
                    let c = self.c(k.wrapping_neg(), w);
                    return self.bin(Op::Add, a, c);
                }
                // (x + k) - y, x - (y + k)
                if let Node::Bin(Op::Add, x, y) = self.n(a) {
                    if x == b {
                        return y;
                    }
                    if y == b {
                        return x;
                    }
                }
                if let Some(r) = self.try_narrow(op, a, b, w) {
                    return r;
                }
            }
            Op::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if w == 1 {
                    return self.bin(Op::And, a, b);
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                }
                if let Some(r) = self.try_narrow(op, a, b, w) {
                    return r;
                }
            }
            Op::UDiv => {
                if let Some(k) = kb {
                    if k == 1 {
                        return a;
                    }
                    if k != 0 && k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                    if k != 0 && self.max(a) < k {
                        return self.c(0, w);
                    }
                    if k != 0 {
                        if let Some(r) = self.try_narrow(op, a, b, w) {
                            return r;
                        }
                    }
                }
            }
            Op::URem => {
                if let Some(k) = kb {
                    if k == 1 {
                        return self.c(0, w);
                    }
                    if k != 0 && k.is_power_of_two() {
                        let s = self.c(k - 1, w);
                        return self.bin(Op::And, a, s);
                    }
                    if k != 0 && self.max(a) < k {
                        return a;
                    }
                    if k != 0 {
                        if let Some(r) = self.try_narrow(op, a, b, w) {
                            return r;
                        }
                    }
                }
            }
            Op::SDiv | Op::SRem => {
                // both operands non-negative: unsigned
                if w > 1 && self.max(a) <= m >> 1 && self.max(b) <= m >> 1 && self.min(b) > 0 {
                    let o = if op == Op::SDiv { Op::UDiv } else { Op::URem };
                    return self.bin(o, a, b);
                }
            }
            Op::Shl => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let k = k as u32;
                    let x = self.extract(a, 0, w - k);
                    let z = self.c(0, k);
                    return self.concat(x, z);
                }
            }
            Op::LShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let k = k as u32;
                    let x = self.extract(a, k, w - k);
                    return self.zext(x, w);
                }
            }
            Op::AShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    let k = k.min(w as u128 - 1) as u32;
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(m) {
                    return a;
                }
                if w == 1 {
                    if self.is_not_of(a, b) || self.is_not_of(b, a) {
                        return self.c(0, 1);
                    }
                } else if let Some(k) = kb {
                    // contiguous mask -> extract
                    let tz = k.trailing_zeros();
                    let n = (k >> tz).trailing_ones();
                    if (k >> tz) == mask(n) {
                        let x = self.extract(a, tz, n);
                        let x = if tz > 0 {
                            let z = self.c(0, tz);
                            self.concat(x, z)
                        } else {
                            x
                        };
                        return self.zext(x, w);
                    }
                    // and(and(x,k1),k2)
                    if let Node::Bin(Op::And, x, y) = self.n(a) {
                        if let Some(k2) = self.konst(y) {
                            let c = self.c(k & k2, w);
                            return self.bin(Op::And, x, c);
                        }
                    }
                    if let Node::ZExt(x) = self.n(a) {
                        let xw = self.w(x);
                        let c = self.c(k, xw);
                        let t = self.bin(Op::And, x, c);
                        return self.zext(t, w);
                    }
                }
                if let (Node::ZExt(x), Node::ZExt(y)) = (self.n(a), self.n(b)) {
                    let nw = self.w(x).min(self.w(y));
                    let x = self.extract(a, 0, nw);
                    let y = self.extract(b, 0, nw);
                    let t = self.bin(Op::And, x, y);
                    return self.zext(t, w);
                }
            }
            Op::Or | Op::Xor => {
                if a == b {
                    return if op == Op::Or { a } else { self.c(0, w) };
                }
                if kb == Some(0) {
                    return a;
                }
                if kb == Some(m) && op == Op::Or {
                    return b;
                }
                if w == 1 {
                    if op == Op::Or && (self.is_not_of(a, b) || self.is_not_of(b, a)) {
                        return self.c(1, 1);
                    }
                    if op == Op::Xor {
                        if kb == Some(1) {
                            return self.not1(a);
                        }
                        // xor(not x, y) = not xor(x,y)
                        if let Node::Bin(Op::Xor, x, y) = self.n(a) {
                            if self.konst(y) == Some(1) {
                                let t = self.bin(Op::Xor, x, b);
                                return self.not1(t);
                            }
                        }
                        if let Node::Bin(Op::Xor, x, y) = self.n(b) {
                            if self.konst(y) == Some(1) {
                                let t = self.bin(Op::Xor, a, x);
                                return self.not1(t);
                            }
                        }
                    }
                } else {
                    // disjoint bits: a = hi part with >=k trailing zeros, b < 2^k
                    let (ta, tb) = (self.tz(a), self.tz(b));
                    let (ba, bb) = (self.max(a), self.max(b));
                    if ta > 0 && ta < w && bb >> ta == 0 {
                        let h = self.extract(a, ta, w - ta);
                        let l = self.extract(b, 0, ta);
                        return self.concat(h, l);
                    }
                    if tb > 0 && tb < w && ba >> tb == 0 {
                        let h = self.extract(b, tb, w - tb);
                        let l = self.extract(a, 0, tb);
                        return self.concat(h, l);
                    }
                    if let (Some(k), Node::Bin(o2, x, y)) = (kb, self.n(a)) {
                        if o2 == op {
                            if let Some(k2) = self.konst(y) {
                                let c = self.c(if op == Op::Or { k | k2 } else { k ^ k2 }, w);
                                return self.bin(op, x, c);
                            }
                        }
                    }
                    if let (Node::ZExt(x), Node::ZExt(y)) = (self.n(a), self.n(b)) {
                        let nw = self.w(x).max(self.w(y));
                        if nw < w {
                            let x = self.extract(a, 0, nw);
                            let y = self.extract(b, 0, nw);
                            let t = self.bin(op, x, y);
                            return self.zext(t, w);
                        }
                    }
                }
            }
        }
        let _ = ka;
        self.intern(Node::Bin(op, a, b), w)
    }
    /// Perform an operation at a smaller width when operands and result provably fit.
    fn try_narrow(&mut self, op: Op, a: Eid, b: Eid, w: u32) -> Option<Eid> {
        if w <= 8 {
            return None;
        }
        let (ah, bh) = (self.max(a), self.max(b));
        let r = match op {
            Op::Add => ah.checked_add(bh)?,
            Op::Mul => ah.checked_mul(bh)?,
            Op::Sub => {
                if self.min(a) < bh {
                    return None;
                }
                ah
            }
            Op::UDiv | Op::URem => ah,
            _ => return None,
        };
        if r > mask(w) {
            return None;
        }
        let n = Self::narrow_bits(r.max(ah).max(bh));
        if n >= w {
            return None;
        }
        let x = self.extract(a, 0, n);
        let y = self.extract(b, 0, n);
        let t = self.bin(op, x, y);
        Some(self.zext(t, w))
    }

    pub fn eq(&mut self, a: Eid, b: Eid) -> Eid {
        self.cmp(Cmp::Eq, a, b)
    }
    pub fn ult(&mut self, a: Eid, b: Eid) -> Eid {
        self.cmp(Cmp::Ult, a, b)
    }
    pub fn ule(&mut self, a: Eid, b: Eid) -> Eid {
        let t = self.cmp(Cmp::Ult, b, a);
        self.not1(t)
    }
    pub fn cmp(&mut self, c: Cmp, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        assert_eq!(w, self.w(b), "width mismatch in {:?}", c);
        let (ka, kb) = (self.konst(a), self.konst(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.c(ccmp(c, w, x, y) as u128, 1);
        }
        if a == b {
            return self.c((c == Cmp::Eq) as u128, 1);
        }
        match c {
            Cmp::Eq => {
                if ka.is_some() || (kb.is_none() && self.nodes[a as usize].h > self.nodes[b as usize].h) {
                    return self.eq_n(b, a, w);
                }
                self.eq_n(a, b, w)
            }
            Cmp::Ult => {
                if self.max(a) < self.min(b) {
                    return self.c(1, 1);
                }
                if self.min(a) >= self.max(b) {
                    return self.c(0, 1);
                }
                if let Some(k) = kb {
                    if k == 1 {
                        let z = self.c(0, w);
                        return self.eq(a, z);
                    }
                    if let Node::ZExt(x) = self.n(a) {
                        // k <= max(a) here
                        let xw = self.w(x);
                        let kk = self.c(k, xw);
                        return self.ult(x, kk);
                    }
                    if let Node::Ite(cc, x, y) = self.n(a) {
                        if self.konst(x).is_some() || self.konst(y).is_some() {
                            let x = self.ult(x, b);
                            let y = self.ult(y, b);
                            return self.ite(cc, x, y);
                        }
                    }
                    if let Node::Concat(h, l) = self.n(a) {
                        let lw = self.w(l);
                        if k & mask(lw) == 0 {
                            let hw = self.w(h);
                            let kk = self.c(k >> lw, hw);
                            return self.ult(h, kk);
                        }
                    }
                }
                if let Some(k) = ka {
                    // k < b  <=>  !(b < k+1)
                    let kk = self.c(k + 1, w);
                    let t = self.ult(b, kk);
                    return self.not1(t);
                }
                if let (Node::ZExt(x), Node::ZExt(y)) = (self.n(a), self.n(b)) {
                    let nw = self.w(x).max(self.w(y));
                    let x = self.extract(a, 0, nw);
                    let y = self.extract(b, 0, nw);
                    return self.cmp(Cmp::Ult, x, y);
                }
                self.intern(Node::Cmp(Cmp::Ult, a, b), 1)
            }
            Cmp::Slt => {
                let half = mask(w) >> 1;
                if self.max(a) <= half && self.max(b) <= half {
                    return self.cmp(Cmp::Ult, a, b);
                }
                self.intern(Node::Cmp(Cmp::Slt, a, b), 1)
            }
        }
    }
    fn eq_n(&mut self, a: Eid, b: Eid, w: u32) -> Eid {
        if self.max(a) < self.min(b) || self.max(b) < self.min(a) {
            return self.c(0, 1);
        }
        if let Some(k) = self.konst(b) {
            if w == 1 {
                return if k == 1 { a } else { self.not1(a) };
            }
            match self.n(a) {
                Node::ZExt(x) => {
                    let xw = self.w(x);
                    if k > mask(xw) {
                        return self.c(0, 1);
                    }
                    let kk = self.c(k, xw);
                    return self.eq(x, kk);
                }
                Node::SExt(x) => {
                    let xw = self.w(x);
                    let kk = self.c(k, xw);
                    let back = self.sext(kk, w);
                    if self.konst(back) != Some(k) {
                        return self.c(0, 1);
                    }
                    return self.eq(x, kk);
                }
                Node::Concat(h, l) => {
                    let (hw, lw) = (self.w(h), self.w(l));
                    let kh = self.c(k >> lw, hw);
                    let kl = self.c(k, lw);
                    let x = self.eq(h, kh);
                    let y = self.eq(l, kl);
                    return self.bin(Op::And, x, y);
                }
                Node::Bin(Op::Add, x, y) => {
                    if let Some(k2) = self.konst(y) {
                        let c = self.c(k.wrapping_sub(k2), w);
                        return self.eq(x, c);
                    }
                }
                Node::Bin(Op::Sub, x, y) => {
                    if let Some(k2) = self.konst(x) {
                        let c = self.c(k2.wrapping_sub(k), w);
                        return self.eq(y, c);
                    }
                    if k == 0 {
                        return self.eq(x, y);
                    }
                }
                Node::Bin(Op::Xor, x, y) => {
                    if let Some(k2) = self.konst(y) {
                        let c = self.c(k ^ k2, w);
                        return self.eq(x, c);
                    }
                    if k == 0 {
                        return self.eq(x, y);
                    }
                }
                Node::Bin(Op::And, _, y) => {
                    if let Some(k2) = self.konst(y) {
                        if k & !k2 != 0 {
                            return self.c(0, 1);
                        }
                    }
                }
                Node::Bin(Op::Or, x, y) => {
                    if k == 0 {
                        let p = self.eq(x, b);
                        let q = self.eq(y, b);
                        return self.bin(Op::And, p, q);
                    }
                    if let Some(k2) = self.konst(y) {
                        if k2 & !k != 0 {
                            return self.c(0, 1);
                        }
                    }
                }
                Node::Ite(c, x, y) => {
                    if self.konst(x).is_some() || self.konst(y).is_some() {
                        let p = self.eq(x, b);
                        let q = self.eq(y, b);
                        return self.ite(c, p, q);
                    }
                }
                _ => {}
            }
        } else if w == 1 {
            let t = self.bin(Op::Xor, a, b);
            return self.not1(t);
        } else {
            if let (Node::ZExt(x), Node::ZExt(y)) = (self.n(a), self.n(b)) {
                let nw = self.w(x).max(self.w(y));
                let x = self.extract(a, 0, nw);
                let y = self.extract(b, 0, nw);
                return self.cmp(Cmp::Eq, x, y);
            }
            if let (Node::Concat(h, l), Node::Concat(h2, l2)) = (self.n(a), self.n(b)) {
                if self.w(l) == self.w(l2) {
                    let x = self.eq(h, h2);
                    let y = self.eq(l, l2);
                    return self.bin(Op::And, x, y);
                }
            }
            // x + k == y + k2 etc.
            if let (Node::Bin(Op::Add, x, y), Node::Bin(Op::Add, x2, y2)) = (self.n(a), self.n(b)) {
                if y == y2 {
                    return self.eq(x, x2);
                }
            }
        }
        self.intern(Node::Cmp(Cmp::Eq, a, b), 1)
    }

    pub fn show(&self, e: Eid, depth: u32) -> String {
        if depth == 0 {
            return "..".into();
        }
        let d = depth - 1;
        let w = self.w(e);
        match self.n(e) {
            Node::Const(c) => format!("{:#x}:{}", c, w),
            Node::Sym(i) => format!("s{}", i),
            Node::Bin(op, a, b) => format!("({:?}:{} {} {})", op, w, self.show(a, d), self.show(b, d)),
            Node::Cmp(c, a, b) => format!("({:?} {} {})", c, self.show(a, d), self.show(b, d)),
            Node::Concat(a, b) => format!("(cat:{} {} {})", w, self.show(a, d), self.show(b, d)),
            Node::Extract(a, lo) => format!("(ext[{}+{}] {})", lo, w, self.show(a, d)),
            Node::ZExt(a) => format!("(z{} {})", w, self.show(a, d)),
            Node::SExt(a) => format!("(s{} {})", w, self.show(a, d)),
            Node::Ite(c, a, b) => format!("(ite:{} {} {} {})", w, self.show(c, d), self.show(a, d), self.show(b, d)),
        }
    }

    /// Evaluate under a byte assignment (missing symbols are 0).
    pub fn eval(&mut self, e: Eid, model: &[u8]) -> u128 {
        if let Node::Const(c) = self.n(e) {
            return c;
        }
        self.stamp.resize(self.nodes.len(), 0);
        self.memo.resize(self.nodes.len(), 0);
        self.cur = self.cur.wrapping_add(1);
        if self.cur == 0 {
            for s in self.stamp.iter_mut() {
                *s = 0
            }
            self.cur = 1;
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            let xi = x as usize;
            if self.stamp[xi] == self.cur {
                stack.pop();
                continue;
            }
            let info = self.nodes[xi];
            let deps: [Eid; 3] = match info.n {
                Node::Const(_) | Node::Sym(_) => [x, x, x],
                Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => [a, b, a],
                Node::Extract(a, _) | Node::ZExt(a) | Node::SExt(a) => [a, a, a],
                Node::Ite(c, a, b) => [c, a, b],
            };
            let mut ready = true;
            if deps[0] != x {
                for d in deps {
                    if self.stamp[d as usize] != self.cur {
                        stack.push(d);
                        ready = false;
                    }
                }
            }
            if !ready {
                continue;
            }
            let g = |a: Eid| self.memo[a as usize];
            let v = match info.n {
                Node::Const(c) => c,
                Node::Sym(i) => model.get(i as usize).copied().unwrap_or(0) as u128,
                Node::Bin(op, a, b) => cbin(op, info.w, g(a), g(b)),
                Node::Cmp(c, a, b) => ccmp(c, self.nodes[a as usize].w, g(a), g(b)) as u128,
                Node::Concat(a, b) => g(a) << self.nodes[b as usize].w | g(b),
                Node::Extract(a, lo) => (g(a) >> lo) & mask(info.w),
                Node::ZExt(a) => g(a),
                Node::SExt(a) => sext(g(a), self.nodes[a as usize].w) as u128 & mask(info.w),
                Node::Ite(c, a, b) => {
                    if g(c) != 0 {
                        g(a)
                    } else {
                        g(b)
                    }
                }
            };
            self.memo[xi] = v;
            self.stamp[xi] = self.cur;
            stack.pop();
        }
        self.memo[e as usize]
    }

    /// Rebuild `e` replacing sub-expressions that are in `known`.
    pub fn subst(
        &mut self,
        e: Eid,
        known: &FxMap<Eid, u128>,
        ksup: &Sup,
        memo: &mut FxMap<Eid, Eid>,
    ) -> Eid {
        let info = self.nodes[e as usize];
        if let Node::Const(_) = info.n {
            return e;
        }
        if !self.sups[info.sup as usize].meets(ksup) {
            return e;
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        if let Some(v) = known.get(&e) {
            let r = self.c(*v, info.w);
            memo.insert(e, r);
            return r;
        }
        let r = match info.n {
            Node::Const(_) | Node::Sym(_) => e,
            Node::Bin(op, a, b) => {
                let x = self.subst(a, known, ksup, memo);
                let y = self.subst(b, known, ksup, memo);
                if x == a && y == b {
                    e
                } else {
                    self.bin(op, x, y)
                }
            }
            Node::Cmp(c, a, b) => {
                let x = self.subst(a, known, ksup, memo);
                let y = self.subst(b, known, ksup, memo);
                if x == a && y == b {
                    e
                } else {
                    self.cmp(c, x, y)
                }
            }
            Node::Concat(a, b) => {
                let x = self.subst(a, known, ksup, memo);
                let y = self.subst(b, known, ksup, memo);
                if x == a && y == b {
                    e
                } else {
                    self.concat(x, y)
                }
            }
            Node::Extract(a, lo) => {
                let x = self.subst(a, known, ksup, memo);
                if x == a {
                    e
                } else {
                    self.extract(x, lo, info.w)
                }
            }
            Node::ZExt(a) => {
                let x = self.subst(a, known, ksup, memo);
                if x == a {
                    e
                } else {
                    self.zext(x, info.w)
                }
            }
            Node::SExt(a) => {
                let x = self.subst(a, known, ksup, memo);
                if x == a {
                    e
                } else {
                    self.sext(x, info.w)
                }
            }
            Node::Ite(c, a, b) => {
                let k = self.subst(c, known, ksup, memo);
                if let Some(v) = self.konst(k) {
                    let t = if v != 0 { a } else { b };
                    self.subst(t, known, ksup, memo)
                } else {
                    let x = self.subst(a, known, ksup, memo);
                    let y = self.subst(b, known, ksup, memo);
                    if k == c && x == a && y == b {
                        e
                    } else {
                        self.ite(k, x, y)
                    }
                }
            }
        };
        // a rewritten form may itself be known
        let r = match known.get(&r) {
            Some(v) => {
                let w = self.w(r);
                self.c(*v, w)
            }
            None => r,
        };
        memo.insert(e, r);
        r
    }
}

/// Random differential test of the simplifier: builds random operator trees through the
/// simplifying constructors and compares evaluation with direct evaluation of the tree.
pub fn selftest(seed: u64, rounds: usize) -> Result<usize, String> {
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut rnd = move || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        s
    };
    let mut checks = 0;
    for round in 0..rounds {
        let mut ar = Arena::new();
        let models: Vec<Vec<u8>> = (0..6)
            .map(|k| {
                (0..4)
                    .map(|_| {
                        let r = rnd();
                        if k < 3 {
                            [0u8, 1, 0x7f, 0x80, 0xff, 2, 10, 100][(r % 8) as usize]
                        } else {
                            r as u8
                        }
                    })
                    .collect()
            })
            .collect();
        // pool of (expr, values under each model)
        let mut pool: Vec<(Eid, Vec<u128>)> = (0..4)
            .map(|i| (ar.sym(i), models.iter().map(|m| m[i as usize] as u128).collect()))
            .collect();
        for _ in 0..60 {
            let ai = (rnd() % pool.len() as u64) as usize;
            let (a, av) = pool[ai].clone();
            let aw = ar.w(a);
            let choice = rnd() % 12;
            let mut dbg = String::new();
            // operand of same width
            let pick_same = |ar: &mut Arena, rnd: &mut dyn FnMut() -> u64, pool: &Vec<(Eid, Vec<u128>)>| {
                let cands: Vec<usize> = (0..pool.len()).filter(|j| ar.w(pool[*j].0) == aw).collect();
                if rnd() % 3 == 0 {
                    let r = rnd();
                    let k = match r % 6 {
                        0 => 0,
                        1 => 1,
                        2 => mask(aw),
                        3 => 1u128 << (rnd() % aw as u64),
                        4 => mask((rnd() % aw as u64) as u32 + 1),
                        _ => (rnd() as u128) << 64 | rnd() as u128,
                    } & mask(aw);
                    (ar.c(k, aw), vec![k; 6])
                } else {
                    let j = cands[(rnd() % cands.len() as u64) as usize];
                    pool[j].clone()
                }
            };
            let (e, v): (Eid, Vec<u128>) = match choice {
                0..=5 => {
                    let (b, bv) = pick_same(&mut ar, &mut rnd, &pool);
                    let ops = [
                        Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::URem, Op::SDiv, Op::SRem, Op::Shl,
                        Op::LShr, Op::AShr, Op::And, Op::Or, Op::Xor,
                    ];
                    let op = ops[(rnd() % 13) as usize];
                    let (a, av, b, bv) = if rnd() % 2 == 0 { (a, av, b, bv) } else { (b, bv, a, av) };
                    let e = ar.bin(op, a, b);
                    dbg = format!("{:?} {} {}", op, ar.show(a, 5), ar.show(b, 5));
                    (e, (0..6).map(|i| cbin(op, aw, av[i], bv[i])).collect())
                }
                6 => {
                    let (b, bv) = pick_same(&mut ar, &mut rnd, &pool);
                    let c = [Cmp::Eq, Cmp::Ult, Cmp::Slt][(rnd() % 3) as usize];
                    let (a, av, b, bv) = if rnd() % 2 == 0 { (a, av, b, bv) } else { (b, bv, a, av) };
                    let e = ar.cmp(c, a, b);
                    (e, (0..6).map(|i| ccmp(c, aw, av[i], bv[i]) as u128).collect())
                }
                7 => {
                    let w = (aw + rnd() as u32 % 30 + 1).min(128);
                    (ar.zext(a, w), av.clone())
                }
                8 => {
                    let w = (aw + rnd() as u32 % 30 + 1).min(128);
                    (ar.sext(a, w), av.iter().map(|x| sext(*x, aw) as u128 & mask(w)).collect())
                }
                9 => {
                    let lo = rnd() as u32 % aw;
                    let w = rnd() as u32 % (aw - lo) + 1;
                    (ar.extract(a, lo, w), av.iter().map(|x| (x >> lo) & mask(w)).collect())
                }
                10 => {
                    let j = (rnd() % pool.len() as u64) as usize;
                    let (b, bv) = pool[j].clone();
                    let bw = ar.w(b);
                    if aw + bw > 128 {
                        continue;
                    }
                    (ar.concat(a, b), (0..6).map(|i| av[i] << bw | bv[i]).collect())
                }
                _ => {
                    let conds: Vec<usize> = (0..pool.len()).filter(|j| ar.w(pool[*j].0) == 1).collect();
                    if conds.is_empty() {
                        continue;
                    }
                    let (c, cv) = pool[conds[(rnd() % conds.len() as u64) as usize]].clone();
                    let (b, bv) = pick_same(&mut ar, &mut rnd, &pool);
                    (ar.ite(c, a, b), (0..6).map(|i| if cv[i] != 0 { av[i] } else { bv[i] }).collect())
                }
            };
            for i in 0..6 {
                let got = ar.eval(e, &models[i]);
                checks += 1;
                let info = ar.nodes[e as usize];
                if got != v[i] || got < info.min || got > info.max || (info.tz < 128 && got & mask(info.tz.min(127)) != 0) {
                    return Err(format!("choice {} {} a={} {} => {}\nround {} op {:?}: got {:x} want {:x} (min {:x} max {:x} tz {})", choice, dbg, aw, ar.show(a, 6), ar.show(e, 6), round, info.n, got, v[i], info.min, info.max, info.tz));
                }
                // substitution of the symbols must give the constant
                let mut known: FxMap<Eid, u128> = Default::default();
                let mut ks = Sup::default();
                for sidx in 0..4u32 {
                    let se = ar.sym(sidx);
                    known.insert(se, models[i][sidx as usize] as u128);
                    ks = ks.or(&Sup::one(sidx));
                }
                let r = ar.subst(e, &known, &ks, &mut Default::default());
                if ar.konst(r) != Some(v[i]) {
                    return Err(format!("subst mismatch {:?}", info.n));
                }
            }
            pool.push((e, v));
        }
    }
    Ok(checks)
}
