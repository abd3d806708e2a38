//! Byte-granular memory objects with optional symbolic bytes.
use crate::expr::{Eid, FxMap};

#[derive(Clone)]
pub enum SymBytes {
    None,
    Dense(Vec<Eid>),
    Sparse(FxMap<u64, Eid>),
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: SymBytes,
}

impl Obj {
    pub fn new(size: u64) -> Obj {
        Obj { data: vec![0; size as usize], sym: SymBytes::None }
    }
    pub fn size(&self) -> u64 {
        self.data.len() as u64
    }
    /// symbolic byte at offset, 0 when concrete
    #[inline]
    pub fn symat(&self, off: u64) -> Eid {
        match &self.sym {
            SymBytes::None => 0,
            SymBytes::Dense(v) => v[off as usize],
            SymBytes::Sparse(m) => m.get(&off).copied().unwrap_or(0),
        }
    }
    #[inline]
    pub fn any_sym(&self, off: u64, n: u64) -> bool {
        match &self.sym {
            SymBytes::None => false,
            SymBytes::Dense(v) => v[off as usize..(off + n) as usize].iter().any(|e| *e != 0),
            SymBytes::Sparse(m) => {
                if (m.len() as u64) < n {
                    m.keys().any(|k| *k >= off && *k < off + n)
                } else {
                    (off..off + n).any(|o| m.contains_key(&o))
                }
            }
        }
    }
    pub fn set_sym(&mut self, off: u64, e: Eid) {
        if let SymBytes::None = self.sym {
            if e == 0 {
                return;
            }
            self.sym = if self.data.len() <= 8192 {
                SymBytes::Dense(vec![0; self.data.len()])
            } else {
                SymBytes::Sparse(Default::default())
            };
        }
        match &mut self.sym {
            SymBytes::None => {}
            SymBytes::Dense(v) => v[off as usize] = e,
            SymBytes::Sparse(m) => {
                if e == 0 {
                    m.remove(&off);
                } else {
                    m.insert(off, e);
                }
            }
        }
    }
    pub fn clear_sym(&mut self, off: u64, n: u64) {
        match &mut self.sym {
            SymBytes::None => {}
            SymBytes::Dense(v) => {
                for e in &mut v[off as usize..(off + n) as usize] {
                    *e = 0;
                }
            }
            SymBytes::Sparse(m) => {
                if !m.is_empty() {
                    m.retain(|k, _| *k < off || *k >= off + n);
                }
            }
        }
    }
    /// all symbolic bytes within a range, as (relative offset, expr)
    pub fn syms_in(&self, off: u64, n: u64) -> Vec<(u64, Eid)> {
        match &self.sym {
            SymBytes::None => vec![],
            SymBytes::Dense(v) => (0..n).filter(|i| v[(off + i) as usize] != 0).map(|i| (i, v[(off + i) as usize])).collect(),
            SymBytes::Sparse(m) => {
                let mut r: Vec<(u64, Eid)> = m.iter().filter(|(k, _)| **k >= off && **k < off + n).map(|(k, e)| (*k - off, *e)).collect();
                r.sort();
                r
            }
        }
    }
}
