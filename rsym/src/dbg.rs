//! Lazy resolution of LLVM debug metadata (line tables only).
use crate::parse::Module;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Loc {
    pub file: String,
    pub line: u32,
    pub func: String,
}

pub struct Dbg<'a> {
    m: &'a Module,
    scopes: HashMap<u32, (String, String)>,
}

fn field<'b>(l: &'b str, k: &str) -> Option<&'b str> {
    // k like "line: "
    let mut from = 0;
    loop {
        let p = l[from..].find(k)? + from;
        let prev = l.as_bytes()[p - 1];
        if prev == b'(' || prev == b' ' {
            let s = &l[p + k.len()..];
            if s.starts_with('"') {
                let e = s[1..].find('"')?;
                return Some(&s[1..1 + e]);
            }
            let e = s.find(|c| c == ',' || c == ')').unwrap_or(s.len());
            return Some(&s[..e]);
        }
        from = p + k.len();
    }
}
fn mref(l: &str, k: &str) -> Option<u32> {
    field(l, k)?.strip_prefix('!')?.parse().ok()
}

impl<'a> Dbg<'a> {
    pub fn new(m: &'a Module) -> Dbg<'a> {
        Dbg { m, scopes: HashMap::new() }
    }
    fn line(&self, id: u32) -> Option<&'a str> {
        self.m.meta.get(&id).map(|i| self.m.lines[*i].as_str())
    }
    fn file(&self, id: u32) -> String {
        match self.line(id) {
            Some(l) => {
                let f = field(l, "filename: ").unwrap_or("?");
                let d = field(l, "directory: ").unwrap_or("");
                if f.starts_with('/') || d.is_empty() {
                    f.to_string()
                } else {
                    format!("{}/{}", d, f)
                }
            }
            None => "?".into(),
        }
    }
    fn ns(&self, id: u32, depth: u32) -> String {
        if depth > 12 {
            return String::new();
        }
        match self.line(id) {
            Some(l) => {
                let n = field(l, "name: ").unwrap_or("");
                match mref(l, "scope: ") {
                    Some(s) => {
                        let p = self.ns(s, depth + 1);
                        if p.is_empty() {
                            n.to_string()
                        } else {
                            format!("{}::{}", p, n)
                        }
                    }
                    None => n.to_string(),
                }
            }
            None => String::new(),
        }
    }
    /// (file, function) of a scope
    pub fn scope(&mut self, id: u32) -> (String, String) {
        if let Some(r) = self.scopes.get(&id) {
            return r.clone();
        }
        let mut cur = id;
        let mut file = None;
        let mut res = ("?".to_string(), "?".to_string());
        for _ in 0..64 {
            let l = match self.line(cur) {
                Some(l) => l,
                None => break,
            };
            if file.is_none() {
                file = mref(l, "file: ").map(|f| self.file(f));
            }
            if l.contains("DISubprogram(") {
                let name = field(l, "name: ").unwrap_or("?");
                let p = mref(l, "scope: ").map(|s| self.ns(s, 0)).unwrap_or_default();
                res = (file.clone().unwrap_or("?".into()), if p.is_empty() { name.to_string() } else { format!("{}::{}", p, name) });
                break;
            }
            match mref(l, "scope: ") {
                Some(s) => cur = s,
                None => break,
            }
        }
        self.scopes.insert(id, res.clone());
        res
    }
    /// innermost-first inline chain of a DILocation
    pub fn chain(&mut self, id: u32) -> Vec<Loc> {
        let mut v = vec![];
        let mut cur = id;
        while cur != 0 && v.len() < 64 {
            let l = match self.line(cur) {
                Some(l) => l,
                None => break,
            };
            if !l.contains("DILocation(") {
                break;
            }
            let line = field(l, "line: ").and_then(|s| s.parse().ok()).unwrap_or(0);
            if let Some(s) = mref(l, "scope: ") {
                let (file, func) = self.scope(s);
                v.push(Loc { file, line, func });
            }
            cur = mref(l, "inlinedAt: ").unwrap_or(0);
        }
        v
    }
}
