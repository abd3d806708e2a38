//! Parser for the textual LLVM IR emitted by rustc (`--emit=llvm-ir`).
use crate::ir::*;
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub init: Vec<u8>,
    pub external: bool,
}

pub struct FuncDecl {
    pub name: String,
    pub defined: bool,
    pub header: String,
    /// line range of the body
    pub from: usize,
    pub to: usize,
    pub dbg: u32,
    pub body: OnceLock<Arc<Body>>,
}

pub struct Module {
    pub lines: Vec<String>,
    pub named: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u64>, // address of global or function
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<String, u32>,
    pub meta: HashMap<u32, usize>,
}

pub const GBASE: u64 = 0x1000_0000_0000;
pub const FBASE: u64 = 0x2000_0000_0000;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    W(String),
    Local(String),
    Glob(String),
    Num(String),
    Str(Vec<u8>),
    P(char),
    Md(String),
    Attr,
    Dots,
}

pub fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    let quoted = |i: &mut usize| -> Vec<u8> {
        // at opening quote
        *i += 1;
        let mut v = vec![];
        while b[*i] != b'"' {
            if b[*i] == b'\\' {
                if b[*i + 1] == b'\\' {
                    v.push(b'\\');
                    *i += 2;
                } else {
                    let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
                    v.push(h(b[*i + 1]) << 4 | h(b[*i + 2]));
                    *i += 3;
                }
            } else {
                v.push(b[*i]);
                *i += 1;
            }
        }
        *i += 1;
        v
    };
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                i += 1;
                let n = if b[i] == b'"' {
                    String::from_utf8_lossy(&quoted(&mut i)).into_owned()
                } else {
                    let st = i;
                    while i < b.len() && isid(b[i]) {
                        i += 1;
                    }
                    s[st..i].to_string()
                };
                out.push(if c == b'%' { Tok::Local(n) } else { Tok::Glob(n) });
            }
            b'!' => {
                i += 1;
                if i < b.len() && b[i] == b'"' {
                    out.push(Tok::Md(String::from_utf8_lossy(&quoted(&mut i)).into_owned()));
                } else {
                    let st = i;
                    while i < b.len() && isid(b[i]) {
                        i += 1;
                    }
                    out.push(Tok::Md(s[st..i].to_string()));
                }
            }
            b'#' => {
                i += 1;
                while i < b.len() && isid(b[i]) {
                    i += 1;
                }
                out.push(Tok::Attr);
            }
            b'"' => out.push(Tok::Str(quoted(&mut i))),
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                i += 1;
                out.push(Tok::Str(quoted(&mut i)));
            }
            b'0'..=b'9' | b'-' => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || b[i] == b'+' || (b[i] == b'-' && b[i - 1] == b'e')) {
                    i += 1;
                }
                out.push(Tok::Num(s[st..i].to_string()));
            }
            b'.' if b[i..].starts_with(b"...") => {
                i += 3;
                out.push(Tok::Dots);
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let st = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'.') {
                    i += 1;
                }
                out.push(Tok::W(s[st..i].to_string()));
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    Ok(out)
}

pub struct P<'a> {
    t: Vec<Tok>,
    i: usize,
    m: &'a Ctx<'a>,
    regs: Option<&'a mut HashMap<String, u32>>,
    labels: Option<&'a mut HashMap<String, u32>>,
}

/// Name resolution context.
pub struct Ctx<'a> {
    pub named: &'a HashMap<String, Ty>,
    pub gidx: &'a HashMap<String, u64>,
    pub fidx: &'a HashMap<String, u32>,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn new(s: &str, m: &'a Ctx<'a>) -> R<P<'a>> {
        Ok(P { t: lex(s)?, i: 0, m, regs: None, labels: None })
    }
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok> {
        let t = self.t.get(self.i).cloned().ok_or("eol")?;
        self.i += 1;
        Ok(t)
    }
    fn isp(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eatp(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn wantp(&mut self, c: char) -> R<()> {
        if self.eatp(c) {
            Ok(())
        } else {
            Err(format!("expected {} at {:?}", c, &self.t[self.i.min(self.t.len())..(self.i + 4).min(self.t.len())]))
        }
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::W(x)) if x == w)
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        self.wantp('(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(Tok::W(w)) => is_type_word(w),
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            Some(Tok::Local(n)) => self.m.named.contains_key(n),
            _ => false,
        }
    }
    /// Skip attribute words (parameter/return/function attributes) up to a type.
    fn skip_attrs_to_type(&mut self) -> R<()> {
        loop {
            if self.is_type_start() {
                return Ok(());
            }
            match self.next()? {
                Tok::W(w) => {
                    if self.isp('(') {
                        self.skip_parens()?;
                    } else if w == "align" || w == "addrspace" || w == "cc" {
                        self.next()?;
                    }
                }
                Tok::Str(_) => {
                    if self.eatp('=') {
                        self.next()?;
                    }
                }
                Tok::Num(_) | Tok::Attr => {}
                t => return Err(format!("attr? {:?}", t)),
            }
        }
    }
    /// Skip attribute words following a type up to a value token.
    fn skip_param_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(Tok::W(w)) => {
                    if is_value_word(w) {
                        return Ok(());
                    }
                    let w = w.clone();
                    self.i += 1;
                    if self.isp('(') {
                        self.skip_parens()?;
                    } else if w == "align" {
                        self.next()?;
                    }
                }
                Some(Tok::Str(_)) => {
                    // quoted attribute `"k"="v"`; a string constant is never a call argument
                    self.i += 1;
                    if self.eatp('=') {
                        self.next()?;
                    }
                }
                _ => return Ok(()),
            }
        }
    }

    pub fn ty(&mut self) -> R<Ty> {
        let t = match self.next()? {
            Tok::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eatw("addrspace") {
                        self.skip_parens()?;
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float,
                "double" => Ty::Double,
                "metadata" => Ty::Meta,
                "label" => Ty::Label,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse::<u32>().map_err(|_| format!("type {}", w))?),
                _ => return Err(format!("type {}", w)),
            },
            Tok::P('[') => {
                let n = self.num_u64()?;
                if !self.eatw("x") {
                    return Err("array x".into());
                }
                let e = self.ty()?;
                self.wantp(']')?;
                Ty::Arr(n, Arc::new(e))
            }
            Tok::P('{') => {
                let v = self.tylist('}')?;
                Ty::Struct(Arc::new(v), false)
            }
            Tok::P('<') => {
                if self.eatp('{') {
                    let v = self.tylist('}')?;
                    self.wantp('>')?;
                    Ty::Struct(Arc::new(v), true)
                } else {
                    let n = self.num_u64()?;
                    if !self.eatw("x") {
                        return Err("vector x".into());
                    }
                    let e = self.ty()?;
                    self.wantp('>')?;
                    Ty::Vec(n, Arc::new(e))
                }
            }
            Tok::Local(n) => self.m.named.get(&n).cloned().ok_or(format!("named type {}", n))?,
            t => return Err(format!("type at {:?}", t)),
        };
        Ok(t)
    }
    fn tylist(&mut self, end: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eatp(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eatp(',') {
                continue;
            }
            self.wantp(end)?;
            return Ok(v);
        }
    }
    fn num_u64(&mut self) -> R<u64> {
        match self.next()? {
            Tok::Num(n) => n.parse::<i128>().map(|x| x as u64).map_err(|_| format!("num {}", n)),
            t => Err(format!("number at {:?}", t)),
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let r = self.regs.as_mut().expect("register outside function");
        let l = r.len() as u32;
        *r.entry(n.to_string()).or_insert(l)
    }
    fn label(&mut self) -> R<u32> {
        if !self.eatw("label") {
            return Err("label".into());
        }
        self.label_name()
    }
    fn label_name(&mut self) -> R<u32> {
        match self.next()? {
            Tok::Local(n) => {
                let r = self.labels.as_mut().unwrap();
                let l = r.len() as u32;
                Ok(*r.entry(n).or_insert(l))
            }
            t => Err(format!("label at {:?}", t)),
        }
    }

    /// Constant of the given type.
    pub fn konst(&mut self, ty: &Ty) -> R<K> {
        match self.next()? {
            Tok::Num(n) => match ty {
                Ty::Int(w) => {
                    let m = crate::expr::mask(*w);
                    if let Ok(v) = n.parse::<i128>() {
                        Ok(K::I(v as u128 & m))
                    } else {
                        n.parse::<u128>().map(|v| K::I(v & m)).map_err(|_| format!("int {}", n))
                    }
                }
                Ty::Double => {
                    if let Some(h) = n.strip_prefix("0x") {
                        u64::from_str_radix(h, 16).map(|v| K::I(v as u128)).map_err(|_| "fp".into())
                    } else {
                        n.parse::<f64>().map(|f| K::I(f.to_bits() as u128)).map_err(|_| "fp".into())
                    }
                }
                Ty::Float => {
                    if let Some(h) = n.strip_prefix("0x") {
                        u64::from_str_radix(h, 16)
                            .map(|v| K::I((f64::from_bits(v) as f32).to_bits() as u128))
                            .map_err(|_| "fp".into())
                    } else {
                        n.parse::<f32>().map(|f| K::I(f.to_bits() as u128)).map_err(|_| "fp".into())
                    }
                }
                _ => Err(format!("number for {:?}", ty)),
            },
            Tok::Glob(g) => match self.m.gidx.get(&g) {
                Some(a) => Ok(K::I(*a as u128)),
                None => Err(format!("unknown global {}", g)),
            },
            Tok::Str(s) => Ok(K::Bytes(Arc::new(s))),
            Tok::P('[') => self.klist(']'),
            Tok::P('{') => self.klist('}'),
            Tok::P('<') => {
                if self.eatp('{') {
                    let v = self.klist('}')?;
                    self.wantp('>')?;
                    Ok(v)
                } else {
                    self.klist('>')
                }
            }
            Tok::W(w) => match w.as_str() {
                "true" => Ok(K::I(1)),
                "false" => Ok(K::I(0)),
                "null" | "undef" | "poison" | "none" | "zeroinitializer" => {
                    if ty.is_agg() {
                        Ok(K::Zero)
                    } else {
                        Ok(K::I(0))
                    }
                }
                "splat" => {
                    self.wantp('(')?;
                    let t = self.ty()?;
                    let k = self.konst(&t)?;
                    self.wantp(')')?;
                    Ok(K::A(Arc::new(vec![k; ty.nelems()])))
                }
                "getelementptr" => {
                    while !self.isp('(') {
                        self.next()?;
                    }
                    self.wantp('(')?;
                    let bt = self.ty()?;
                    self.wantp(',')?;
                    let pt = self.ty()?;
                    let base = kint(&self.konst(&pt)?)?;
                    let mut off: i128 = 0;
                    let mut cur = bt.clone();
                    let mut first = true;
                    while self.eatp(',') {
                        self.eatw("inrange");
                        let it = self.ty()?;
                        let w = it.bits();
                        let v = kint(&self.konst(&it)?)?;
                        let sv = crate::expr::sext(v, w);
                        if first {
                            off += sv * bt.size() as i128;
                            first = false;
                        } else {
                            match &cur {
                                Ty::Struct(..) => off += cur.field_off(v as usize) as i128,
                                _ => off += sv * cur.elem(0).size() as i128,
                            }
                            cur = cur.elem(if matches!(cur, Ty::Struct(..)) { v as usize } else { 0 });
                        }
                    }
                    self.wantp(')')?;
                    Ok(K::I((base as i128 + off) as u128 & crate::expr::mask(64)))
                }
                "inttoptr" | "ptrtoint" | "trunc" | "zext" | "sext" | "bitcast" | "addrspacecast" => {
                    while !self.isp('(') {
                        self.next()?;
                    }
                    self.wantp('(')?;
                    let ft = self.ty()?;
                    let v = kint(&self.konst(&ft)?)?;
                    if !self.eatw("to") {
                        return Err("cast to".into());
                    }
                    let tt = self.ty()?;
                    self.wantp(')')?;
                    let v = if w == "sext" { crate::expr::sext(v, ft.bits()) as u128 } else { v };
                    Ok(K::I(v & crate::expr::mask(tt.bits())))
                }
                "add" | "sub" | "mul" | "xor" | "shl" => {
                    while !self.isp('(') {
                        self.next()?;
                    }
                    self.wantp('(')?;
                    let t1 = self.ty()?;
                    let a = kint(&self.konst(&t1)?)?;
                    self.wantp(',')?;
                    let t2 = self.ty()?;
                    let b = kint(&self.konst(&t2)?)?;
                    self.wantp(')')?;
                    let r = match w.as_str() {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "mul" => a.wrapping_mul(b),
                        "xor" => a ^ b,
                        _ => a << b,
                    };
                    Ok(K::I(r & crate::expr::mask(t1.bits())))
                }
                _ => Err(format!("constant {}", w)),
            },
            t => Err(format!("constant at {:?}", t)),
        }
    }
    fn klist(&mut self, end: char) -> R<K> {
        let mut v = vec![];
        if self.eatp(end) {
            return Ok(K::A(Arc::new(v)));
        }
        loop {
            let t = self.ty()?;
            v.push(self.konst(&t)?);
            if self.eatp(',') {
                continue;
            }
            self.wantp(end)?;
            return Ok(K::A(Arc::new(v)));
        }
    }
    fn opnd(&mut self, ty: &Ty) -> R<Opnd> {
        if let Some(Tok::Local(n)) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return Ok(Opnd::R(self.reg(&n)));
        }
        if *ty == Ty::Meta {
            // skip one metadata operand
            match self.next()? {
                Tok::Md(_) => {
                    if self.isp('(') {
                        self.skip_parens()?;
                    } else if self.isp('{') {
                        while !self.eatp('}') {
                            self.next()?;
                        }
                    }
                }
                _ => {
                    while !self.isp(',') && !self.isp(')') {
                        self.next()?;
                    }
                }
            }
            return Ok(Opnd::None);
        }
        let k = self.konst(ty)?;
        Ok(match k {
            K::I(v) => Opnd::C(v),
            k => Opnd::K(k, ty.clone()),
        })
    }
    fn typed(&mut self) -> R<(Ty, Opnd)> {
        let t = self.ty()?;
        let o = self.opnd(&t)?;
        Ok((t, o))
    }

    fn dbg(&self) -> u32 {
        let mut j = self.i;
        while j + 1 < self.t.len() {
            if let (Tok::Md(a), Tok::Md(b)) = (&self.t[j], &self.t[j + 1]) {
                if a == "dbg" {
                    return b.parse().unwrap_or(0);
                }
            }
            j += 1;
        }
        0
    }

    fn inst(&mut self) -> R<Inst> {
        let mut dst = NOREG;
        if let (Some(Tok::Local(n)), Some(Tok::P('='))) = (self.t.get(self.i), self.t.get(self.i + 1)) {
            let n = n.clone();
            self.i += 2;
            dst = self.reg(&n);
        }
        let dbg = self.dbg();
        let k = self.inst_kind()?;
        Ok(Inst { k, dst, dbg })
    }
    fn inst_kind(&mut self) -> R<Kind> {
        while self.isw("tail") || self.isw("musttail") || self.isw("notail") {
            self.i += 1;
        }
        let w = match self.next()? {
            Tok::W(w) => w,
            t => return Err(format!("instruction at {:?}", t)),
        };
        let bop = match w.as_str() {
            "add" => Some(Bop::Add),
            "sub" => Some(Bop::Sub),
            "mul" => Some(Bop::Mul),
            "udiv" => Some(Bop::UDiv),
            "urem" => Some(Bop::URem),
            "sdiv" => Some(Bop::SDiv),
            "srem" => Some(Bop::SRem),
            "shl" => Some(Bop::Shl),
            "lshr" => Some(Bop::LShr),
            "ashr" => Some(Bop::AShr),
            "and" => Some(Bop::And),
            "or" => Some(Bop::Or),
            "xor" => Some(Bop::Xor),
            _ => None,
        };
        if let Some(b) = bop {
            while self.isw("nuw") || self.isw("nsw") || self.isw("exact") || self.isw("disjoint") {
                self.i += 1;
            }
            let (t, a) = self.typed()?;
            self.wantp(',')?;
            let c = self.opnd(&t)?;
            return Ok(Kind::Bin(b, t, a, c));
        }
        match w.as_str() {
            "icmp" => {
                self.eatw("samesign");
                let p = match self.next()? {
                    Tok::W(p) => match p.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => return Err("pred".into()),
                    },
                    _ => return Err("pred".into()),
                };
                let (t, a) = self.typed()?;
                self.wantp(',')?;
                let c = self.opnd(&t)?;
                Ok(Kind::Icmp(p, t, a, c))
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                while self.isw("nneg") || self.isw("nuw") || self.isw("nsw") {
                    self.i += 1;
                }
                let (t, a) = self.typed()?;
                if !self.eatw("to") {
                    return Err("cast".into());
                }
                let t2 = self.ty()?;
                match w.as_str() {
                    "zext" => Ok(Kind::Cast(Cast::ZExt, t, t2, a)),
                    "sext" => Ok(Kind::Cast(Cast::SExt, t, t2, a)),
                    "trunc" => Ok(Kind::Cast(Cast::Trunc, t, t2, a)),
                    "bitcast" if t.is_agg() || t2.is_agg() => Ok(Kind::BitcastVec(t, t2, a)),
                    _ => {
                        let (x, y) = (t.bits(), t2.bits());
                        Ok(Kind::Cast(
                            if x == y {
                                Cast::Copy
                            } else if x < y {
                                Cast::ZExt
                            } else {
                                Cast::Trunc
                            },
                            t,
                            t2,
                            a,
                        ))
                    }
                }
            }
            "freeze" => {
                let (t, a) = self.typed()?;
                Ok(Kind::Cast(Cast::Copy, t.clone(), t, a))
            }
            "select" => {
                let (ct, c) = self.typed()?;
                self.wantp(',')?;
                let (t, a) = self.typed()?;
                self.wantp(',')?;
                let (_, b) = self.typed()?;
                Ok(Kind::Select(t, ct.is_agg(), c, a, b))
            }
            "br" => {
                if self.isw("label") {
                    return Ok(Kind::Br(self.label()?));
                }
                let (_, c) = self.typed()?;
                self.wantp(',')?;
                let a = self.label()?;
                self.wantp(',')?;
                let b = self.label()?;
                Ok(Kind::CondBr(c, a, b))
            }
            "switch" => {
                let (t, v) = self.typed()?;
                self.wantp(',')?;
                let d = self.label()?;
                self.wantp('[')?;
                let mut cases = vec![];
                while !self.eatp(']') {
                    let t = self.ty()?;
                    let k = kint(&self.konst(&t)?)?;
                    self.wantp(',')?;
                    let l = self.label()?;
                    cases.push((k, l));
                }
                Ok(Kind::Switch(t.bits(), v, d, Arc::new(cases)))
            }
            "ret" => {
                if self.isw("void") {
                    return Ok(Kind::Ret(None));
                }
                let (_, v) = self.typed()?;
                Ok(Kind::Ret(Some(v)))
            }
            "unreachable" => Ok(Kind::Unreachable),
            "load" => {
                while self.isw("atomic") || self.isw("volatile") {
                    self.i += 1;
                }
                let t = self.ty()?;
                self.wantp(',')?;
                let (_, p) = self.typed()?;
                Ok(Kind::Load(t, p))
            }
            "store" => {
                while self.isw("atomic") || self.isw("volatile") {
                    self.i += 1;
                }
                let (t, v) = self.typed()?;
                self.wantp(',')?;
                let (_, p) = self.typed()?;
                Ok(Kind::Store(t, v, p))
            }
            "alloca" => {
                let t = self.ty()?;
                let mut n = Opnd::C(1);
                if self.isp(',') && !matches!(self.t.get(self.i + 1), Some(Tok::W(x)) if x == "align" || x == "addrspace")
                    && !matches!(self.t.get(self.i + 1), Some(Tok::Md(_)))
                {
                    self.i += 1;
                    n = self.typed()?.1;
                }
                Ok(Kind::Alloca(t.size(), n))
            }
            "getelementptr" => {
                while self.isw("inbounds") || self.isw("nuw") || self.isw("nusw") || self.isw("inrange") {
                    self.i += 1;
                }
                let bt = self.ty()?;
                self.wantp(',')?;
                let (pt, base) = self.typed()?;
                if pt.is_agg() {
                    return Err("vector gep".into());
                }
                let mut off: u64 = 0;
                let mut dynv = vec![];
                let mut cur = bt.clone();
                let mut first = true;
                while self.isp(',') && !matches!(self.t.get(self.i + 1), Some(Tok::Md(_))) {
                    self.i += 1;
                    let (it, o) = self.typed()?;
                    if it.is_agg() {
                        return Err("vector gep".into());
                    }
                    let iw = it.bits();
                    let scale;
                    if first {
                        scale = bt.size();
                        first = false;
                    } else if let Ty::Struct(..) = cur {
                        let f = match o {
                            Opnd::C(v) => v as usize,
                            _ => return Err("struct index".into()),
                        };
                        off = off.wrapping_add(cur.field_off(f));
                        cur = cur.elem(f);
                        continue;
                    } else {
                        let e = cur.elem(0);
                        scale = e.size();
                        cur = e;
                    }
                    match o {
                        Opnd::C(v) => off = off.wrapping_add((crate::expr::sext(v, iw) as u64).wrapping_mul(scale)),
                        o => dynv.push((o, iw, scale)),
                    }
                }
                Ok(Kind::Gep(base, off, dynv))
            }
            "extractvalue" => {
                let (_, a) = self.typed()?;
                let mut ix = vec![];
                while self.isp(',') && matches!(self.t.get(self.i + 1), Some(Tok::Num(_))) {
                    self.i += 1;
                    ix.push(self.num_u64()? as u32);
                }
                Ok(Kind::ExtractValue(a, ix))
            }
            "insertvalue" => {
                let (t, a) = self.typed()?;
                self.wantp(',')?;
                let (_, b) = self.typed()?;
                let mut ix = vec![];
                while self.isp(',') && matches!(self.t.get(self.i + 1), Some(Tok::Num(_))) {
                    self.i += 1;
                    ix.push(self.num_u64()? as u32);
                }
                Ok(Kind::InsertValue(t, a, b, ix))
            }
            "extractelement" => {
                let (_, a) = self.typed()?;
                self.wantp(',')?;
                let (_, b) = self.typed()?;
                Ok(Kind::ExtractElement(a, b))
            }
            "insertelement" => {
                let (t, a) = self.typed()?;
                self.wantp(',')?;
                let (_, b) = self.typed()?;
                self.wantp(',')?;
                let (_, c) = self.typed()?;
                Ok(Kind::InsertElement(t, a, b, c))
            }
            "shufflevector" => {
                let (t, a) = self.typed()?;
                self.wantp(',')?;
                let (_, b) = self.typed()?;
                self.wantp(',')?;
                let mt = self.ty()?;
                let n = mt.nelems();
                let mk = match self.konst(&mt)? {
                    K::Zero => vec![0; n],
                    K::A(v) => v.iter().map(|k| kint(k).map(|x| x as u32)).collect::<R<Vec<_>>>()?,
                    _ => return Err("shuffle mask".into()),
                };
                Ok(Kind::Shuffle(t.nelems() as u64, a, b, mk))
            }
            "call" => {
                while self.isw("fast") || self.isw("nnan") || self.isw("ninf") || self.isw("nsz") {
                    self.i += 1;
                }
                self.skip_attrs_to_type()?;
                let rt = self.ty()?;
                // optional function type
                if self.isp('(') {
                    self.skip_parens()?;
                }
                if self.isw("asm") {
                    return Ok(Kind::Unsupported("inline asm".into()));
                }
                let callee = match self.next()? {
                    Tok::Glob(g) => match self.m.fidx.get(&g) {
                        Some(f) => Callee::Direct(*f),
                        None => match self.m.gidx.get(&g) {
                            Some(a) => Callee::Indirect(Opnd::C(*a as u128)),
                            None => return Err(format!("unknown callee {}", g)),
                        },
                    },
                    Tok::Local(n) => {
                        let r = self.reg(&n);
                        Callee::Indirect(Opnd::R(r))
                    }
                    t => return Ok(Kind::Unsupported(format!("callee {:?}", t))),
                };
                self.wantp('(')?;
                let mut args = vec![];
                if !self.eatp(')') {
                    loop {
                        let t = self.ty()?;
                        if t != Ty::Meta {
                            self.skip_param_attrs()?;
                        }
                        let o = self.opnd(&t)?;
                        args.push((t, o));
                        if self.eatp(',') {
                            continue;
                        }
                        self.wantp(')')?;
                        break;
                    }
                }
                Ok(Kind::Call(callee, rt, args))
            }
            "atomicrmw" => {
                self.eatw("volatile");
                let op = match self.next()? {
                    Tok::W(o) => match o.as_str() {
                        "xchg" => 0,
                        "add" => 1,
                        "sub" => 2,
                        "and" => 3,
                        "or" => 4,
                        "xor" => 5,
                        _ => return Ok(Kind::Unsupported("atomicrmw".into())),
                    },
                    _ => return Err("atomicrmw".into()),
                };
                let (_, p) = self.typed()?;
                self.wantp(',')?;
                let (t, v) = self.typed()?;
                Ok(Kind::AtomicRmw(op, t.bits(), p, v))
            }
            "cmpxchg" => {
                while self.isw("weak") || self.isw("volatile") {
                    self.i += 1;
                }
                let (_, p) = self.typed()?;
                self.wantp(',')?;
                let (t, a) = self.typed()?;
                self.wantp(',')?;
                let (_, b) = self.typed()?;
                Ok(Kind::CmpXchg(t.bits(), p, a, b))
            }
            "fence" => Ok(Kind::Fence),
            _ => Ok(Kind::Unsupported(w)),
        }
    }
}

fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "metadata" | "label")
        || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()))
}
fn is_value_word(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "none" | "zeroinitializer" | "splat" | "getelementptr" | "inttoptr"
            | "ptrtoint" | "trunc" | "bitcast" | "add" | "sub" | "mul" | "xor" | "shl" | "blockaddress"
    )
}

pub fn kint(k: &K) -> R<u128> {
    match k {
        K::I(v) => Ok(*v),
        _ => Err("expected integer constant".into()),
    }
}

fn write_init(out: &mut [u8], off: usize, ty: &Ty, k: &K) -> R<()> {
    match k {
        K::Zero => Ok(()),
        K::Bytes(b) => {
            out[off..off + b.len()].copy_from_slice(b);
            Ok(())
        }
        K::I(v) => {
            let n = ty.size() as usize;
            for i in 0..n.min(16) {
                out[off + i] = (v >> (8 * i)) as u8;
            }
            Ok(())
        }
        K::A(v) => {
            for (i, e) in v.iter().enumerate() {
                let o = off + ty.field_off(i) as usize;
                write_init(out, o, &ty.elem(i), e)?;
            }
            Ok(())
        }
    }
}

fn glob_name(line: &str) -> Option<(String, usize)> {
    // name after '@', returns (name, index after name)
    let at = line.find('@')?;
    let b = line.as_bytes();
    let mut i = at + 1;
    if b.get(i) == Some(&b'"') {
        i += 1;
        let st = i;
        while b[i] != b'"' {
            i += 1;
        }
        Some((line[st..i].to_string(), i + 1))
    } else {
        let st = i;
        while i < b.len() && (b[i].is_ascii_alphanumeric() || b"_.$-".contains(&b[i])) {
            i += 1;
        }
        Some((line[st..i].to_string(), i))
    }
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
        let lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
        let mut named_src = vec![];
        let mut gl = vec![];
        let mut funcs: Vec<FuncDecl> = vec![];
        let mut meta = HashMap::new();
        let mut i = 0;
        while i < lines.len() {
            let l = &lines[i];
            match l.as_bytes().first() {
                Some(b'%') => named_src.push(i),
                Some(b'@') => gl.push(i),
                Some(b'!') => {
                    if let Some(e) = l.find(' ') {
                        if let Ok(n) = l[1..e].parse::<u32>() {
                            meta.insert(n, i);
                        }
                    }
                }
                Some(b'd') if l.starts_with("declare ") => {
                    let (n, _) = glob_name(l).ok_or("declare")?;
                    funcs.push(FuncDecl { name: n, defined: false, header: l.clone(), from: 0, to: 0, dbg: 0, body: OnceLock::new() });
                }
                Some(b'd') if l.starts_with("define ") => {
                    let (n, _) = glob_name(l).ok_or("define")?;
                    let from = i + 1;
                    let mut j = from;
                    while lines[j] != "}" {
                        j += 1;
                    }
                    let dbg = l
                        .find("!dbg !")
                        .and_then(|p| l[p + 6..].split(|c: char| !c.is_ascii_digit()).next().and_then(|s| s.parse().ok()))
                        .unwrap_or(0);
                    funcs.push(FuncDecl { name: n, defined: true, header: l.clone(), from, to: j, dbg, body: OnceLock::new() });
                    i = j;
                }
                _ => {}
            }
            i += 1;
        }
        // core's decimal formatting of integers, and hexadecimal of octets, are replaced by the harness's own
        let mut own: Vec<(usize, usize)> = funcs
            .iter()
            .enumerate()
            .filter_map(|(k, f)| {
                let want = if let Some(t) = f.name.find("4core3fmt3num3imp").map(|p| &f.name[p + 17..]) {
                    if t.len() > 1 && &t[1..] == "10__fmt_inner" && f.header.contains("(i") && f.header.matches('%').count() == 2 {
                        // number and buffer (of the greatest number's size)
                        format!("show_inner_{}", &t[..1])
                    } else if t.len() < 2 || !t[1..].starts_with("NtB") || !t.ends_with("7Display3fmt") {
                        return None;
                    } else {
                        format!("show_dec_{}", &t[..1])
                    }
                } else if f.name.contains("4core3fmtRhNtB") {
                    if !f.name.contains("8UpperHex3fmt") || !f.header.contains("(ptr ") {
                        return None;
                    }
                    "show_hex_rh".to_string()
                } else {
                    let t = f.name.find("4core3fmt3numhNtB").map(|p| &f.name[p + 17..])?;
                    if !t.ends_with("8UpperHex3fmt") || !f.header.contains("(ptr ") {
                        return None;
                    }
                    "show_hex_h".to_string()
                };
                // functions for types of the same size may have been merged into one
                let find = |w: &str| funcs.iter().position(|g| g.defined && g.name == w);
                let other = match want.as_bytes().last() {
                    Some(b'y') => "j",
                    Some(b'j') => "y",
                    Some(b'x') => "i",
                    Some(b'i') => "x",
                    _ => "",
                };
                let j = find(&want).or_else(|| find(&format!("{}{}", &want[..want.len() - 1], other)))?;
                Some((k, j))
            })
            .collect();
        // the start-up routine by which std learns the program's arguments
        if let Some(k) = funcs.iter().position(|f| f.name == "rsym_init") {
            if let Some(j) = funcs.iter().position(|f| f.defined && f.name.contains("ARGV_INIT_ARRAY") && f.name.contains("init_wrapper")) {
                own.push((k, j));
            }
        }
        for (k, j) in own {
            let (h, fr, to, d) = (funcs[j].header.clone(), funcs[j].from, funcs[j].to, funcs[j].dbg);
            let f = &mut funcs[k];
            f.header = h;
            f.from = fr;
            f.to = to;
            f.dbg = d;
            f.defined = true;
        }
        let mut gidx = HashMap::new();
        let mut fidx = HashMap::new();
        for (k, f) in funcs.iter().enumerate() {
            fidx.insert(f.name.clone(), k as u32);
            gidx.insert(f.name.clone(), FBASE + 16 * k as u64);
        }
        // named types (may refer to each other): iterate until resolved
        let mut named = HashMap::new();
        let empty_g = HashMap::new();
        let empty_f = HashMap::new();
        for _ in 0..20 {
            if named_src.is_empty() {
                break;
            }
            let mut rest = vec![];
            for li in named_src {
                let l = &lines[li];
                let eq = l.find(" = type ").ok_or("type")?;
                let name = l[1..eq].trim_matches('"').to_string();
                let ctx = Ctx { named: &named, gidx: &empty_g, fidx: &empty_f };
                let r = if l[eq + 8..].starts_with("opaque") { Ok(Ty::Void) } else { P::new(&l[eq + 8..], &ctx)?.ty() };
                match r {
                    Ok(t) => {
                        named.insert(name, t);
                    }
                    Err(_) => rest.push(li),
                }
            }
            named_src = rest;
        }
        // pass 1: sizes and addresses
        let mut globals: Vec<Global> = vec![];
        let mut rest_of: Vec<Option<(String, Ty)>> = vec![];
        let mut addr = GBASE;
        let mut aliases = vec![];
        for li in &gl {
            let l = &lines[*li];
            let (name, e) = glob_name(l).ok_or("global")?;
            let words: Vec<&str> = l[e..].trim_start_matches(" = ").split(' ').collect();
            if words.contains(&"alias") {
                aliases.push((name, l.clone()));
                continue;
            }
            let (mut pos, mut constant) = (None, false);
            for (kw, c) in [(" constant ", true), (" global ", false)] {
                if let Some(p) = l[e..].find(kw) {
                    if pos.map_or(true, |q| e + p + kw.len() < q) {
                        pos = Some(e + p + kw.len());
                        constant = c;
                    }
                }
            }
            let pos = match pos {
                Some(p) => p,
                None => continue,
            };
            let external = words.iter().any(|w| *w == "external" || *w == "extern_weak");
            let rest = l[pos..].to_string();
            let ctx = Ctx { named: &named, gidx: &empty_g, fidx: &empty_f };
            let ty = P::new(&rest, &ctx)?.ty()?;
            let size = ty.size();
            // `align N` clause
            let align = l.rfind(", align ").and_then(|p| l[p + 8..].split(|c: char| !c.is_ascii_digit()).next().and_then(|s| s.parse::<u64>().ok())).unwrap_or(16);
            let align = align.max(16);
            addr = (addr + align - 1) / align * align;
            gidx.insert(name.clone(), addr);
            globals.push(Global { name, addr, size, constant, init: vec![], external });
            addr += size + 64;
            rest_of.push(if external { None } else { Some((rest, ty)) });
        }
        for (name, l) in aliases {
            if let Some(p) = l.rfind('@') {
                if let Some((t, _)) = glob_name(&l[p..]) {
                    if let Some(a) = gidx.get(&t).copied() {
                        gidx.insert(name.clone(), a);
                        if let Some(f) = fidx.get(&t).copied() {
                            fidx.insert(name, f);
                        }
                    }
                }
            }
        }
        // pass 2: initializers
        let ctx = Ctx { named: &named, gidx: &gidx, fidx: &fidx };
        for (g, r) in globals.iter_mut().zip(rest_of) {
            g.init = vec![0; g.size as usize];
            if let Some((rest, ty)) = r {
                let mut p = P::new(&rest, &ctx)?;
                let t = p.ty()?;
                debug_assert!(t == ty);
                let k = p.konst(&ty).map_err(|e| format!("global {}: {}", g.name, e))?;
                write_init(&mut g.init, 0, &ty, &k)?;
            }
        }
        Ok(Module { lines, named, globals, gidx, funcs, fidx, meta })
    }

    pub fn body(&self, f: u32) -> R<Arc<Body>> {
        let fd = &self.funcs[f as usize];
        if let Some(b) = fd.body.get() {
            return Ok(b.clone());
        }
        let b = Arc::new(self.parse_body(fd).map_err(|e| format!("function {}: {}", fd.name, e))?);
        let _ = fd.body.set(b.clone());
        Ok(b)
    }

    fn parse_body(&self, fd: &FuncDecl) -> R<Body> {
        let ctx = Ctx { named: &self.named, gidx: &self.gidx, fidx: &self.fidx };
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut labels: HashMap<String, u32> = HashMap::new();
        // parameters
        let (_, e) = glob_name(&fd.header).ok_or("name")?;
        let hdr = &fd.header[e..];
        let mut nparams = 0;
        {
            let mut p = P::new(hdr, &ctx)?;
            p.regs = Some(&mut regs);
            p.wantp('(')?;
            if !p.eatp(')') {
                loop {
                    if let Some(Tok::Dots) = p.peek() {
                        p.i += 1;
                        p.wantp(')')?;
                        break;
                    }
                    let _t = p.ty()?;
                    p.skip_param_attrs()?;
                    let nm = match p.next()? {
                        Tok::Local(n) => n,
                        t => return Err(format!("param {:?}", t)),
                    };
                    p.reg(&nm);
                    nparams += 1;
                    if p.eatp(',') {
                        continue;
                    }
                    p.wantp(')')?;
                    break;
                }
            }
        }
        let mut blocks: Vec<Block> = vec![];
        let mut cur: Option<usize> = None;
        let mut li = fd.from;
        let setblock = |labels: &mut HashMap<String, u32>, name: &str, blocks: &mut Vec<Block>| -> usize {
            let n = labels.len() as u32;
            let id = *labels.entry(name.to_string()).or_insert(n) as usize;
            if blocks.len() <= id {
                blocks.resize(id + 1, Block::default());
            }
            id
        };
        while li < fd.to {
            let l = &self.lines[li];
            li += 1;
            if l.is_empty() || l.starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let end = l.find(':').ok_or("label line")?;
                let name = l[..end].trim_matches('"');
                cur = Some(setblock(&mut labels, name, &mut blocks));
                continue;
            }
            let tl = l.trim_start();
            if tl.starts_with("#dbg") || tl.starts_with(';') {
                continue;
            }
            if cur.is_none() {
                // entry block; unnamed entry takes the number after the parameters
                cur = Some(setblock(&mut labels, "\u{1}entry", &mut blocks));
            }
            let mut full = tl.to_string();
            if tl.starts_with("switch ") && !tl.contains(']') {
                while li < fd.to {
                    let x = self.lines[li].trim();
                    full.push(' ');
                    full.push_str(x);
                    li += 1;
                    if x.starts_with(']') {
                        break;
                    }
                }
            }
            let mut p = P::new(&full, &ctx)?;
            p.regs = Some(&mut regs);
            p.labels = Some(&mut labels);
            let b = cur.unwrap();
            // phi?
            if full.contains(" = phi ") {
                let dst = match p.next()? {
                    Tok::Local(n) => p.reg(&n),
                    _ => return Err("phi".into()),
                };
                p.wantp('=')?;
                p.next()?; // phi
                let t = p.ty()?;
                let mut inc = vec![];
                loop {
                    p.wantp('[')?;
                    let o = p.opnd(&t)?;
                    p.wantp(',')?;
                    let lb = p.label_name()?;
                    p.wantp(']')?;
                    inc.push((lb, o));
                    if p.isp(',') && !matches!(p.t.get(p.i + 1), Some(Tok::Md(_))) {
                        p.i += 1;
                        continue;
                    }
                    break;
                }
                blocks[b].phis.push(Phi { dst, inc });
                continue;
            }
            let inst = match p.inst() {
                Ok(i) => i,
                Err(e) => {
                    let mut dst = NOREG;
                    if let (Some(Tok::Local(n)), Some(Tok::P('='))) = (p.t.first().cloned(), p.t.get(1)) {
                        dst = p.reg(&n);
                    }
                    Inst { k: Kind::Unsupported(format!("{} in `{}`", e, tl)), dst, dbg: 0 }
                }
            };
            blocks[b].insts.push(inst);
        }
        // the unnamed entry block is referred to (in phis) by its implicit number
        if let Some(en) = labels.get("\u{1}entry").copied() {
            // implicit label = number of unnamed params; a phi may mention it
            for (k, v) in labels.clone() {
                if v as usize >= blocks.len() || blocks[v as usize].insts.is_empty() {
                    let _ = k;
                    for bl in blocks.iter_mut() {
                        for ph in bl.phis.iter_mut() {
                            for inc in ph.inc.iter_mut() {
                                if inc.0 == v {
                                    inc.0 = en;
                                }
                            }
                        }
                    }
                }
            }
            if en != 0 {
                return Err("entry is not block 0".into());
            }
        }
        Ok(Body { nparams, nregs: regs.len(), blocks })
    }
}
