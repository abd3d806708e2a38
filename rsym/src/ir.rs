//! Data model of the LLVM IR subset executed by the engine.
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Arr(u64, Arc<Ty>),
    Vec(u64, Arc<Ty>),
    Struct(Arc<Vec<Ty>>, bool),
    Meta,
    Label,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().min(64),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// allocation size in bytes
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for f in fs.iter() {
                    if !packed {
                        let a = f.align();
                        off = (off + a - 1) / a * a;
                    }
                    off += f.size();
                }
                let a = self.align();
                (off + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for (j, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = f.align();
                        off = (off + a - 1) / a * a;
                    }
                    if j == i {
                        return off;
                    }
                    off += f.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off of scalar"),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(fs, _) => fs[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of scalar"),
        }
    }
    pub fn nelems(&self) -> usize {
        match self {
            Ty::Struct(fs, _) => fs.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => panic!("nelems of scalar"),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..))
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            _ => 0,
        }
    }
}

/// Constant value (also used for initializers).
#[derive(Clone, Debug, PartialEq)]
pub enum K {
    I(u128),
    A(Arc<Vec<K>>),
    Bytes(Arc<Vec<u8>>),
    Zero,
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    C(u128),
    K(K, Ty),
    /// metadata or other operand which is never read
    None,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    ZExt,
    SExt,
    Trunc,
    Copy,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Opnd),
}

#[derive(Clone, Debug)]
pub enum Kind {
    Bin(Bop, Ty, Opnd, Opnd),
    Icmp(Pred, Ty, Opnd, Opnd),
    Cast(Cast, Ty, Ty, Opnd),
    Select(Ty, bool, Opnd, Opnd, Opnd),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(u32, Opnd, u32, Arc<Vec<(u128, u32)>>),
    Ret(Option<Opnd>),
    Unreachable,
    Load(Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Alloca(u64, Opnd),
    Gep(Opnd, u64, Vec<(Opnd, u32, u64)>),
    ExtractValue(Opnd, Vec<u32>),
    InsertValue(Ty, Opnd, Opnd, Vec<u32>),
    ExtractElement(Opnd, Opnd),
    InsertElement(Ty, Opnd, Opnd, Opnd),
    Shuffle(u64, Opnd, Opnd, Vec<u32>),
    Call(Callee, Ty, Vec<(Ty, Opnd)>),
    AtomicRmw(u8, u32, Opnd, Opnd),
    CmpXchg(u32, Opnd, Opnd, Opnd),
    Fence,
    BitcastVec(Ty, Ty, Opnd),
    Unsupported(String),
}

pub const NOREG: u32 = u32::MAX;

#[derive(Clone, Debug)]
pub struct Inst {
    pub k: Kind,
    pub dst: u32,
    pub dbg: u32,
}

#[derive(Clone, Debug)]
pub struct Phi {
    pub dst: u32,
    pub inc: Vec<(u32, Opnd)>,
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Body {
    pub nparams: usize,
    pub nregs: usize,
    pub blocks: Vec<Block>,
}
