//! What the decoder tool and the console printers need of the operating system: program
//! arguments, one scratch directory, two output streams, an exit status.  In the symbolic build
//! the C library functions std calls are modelled here (std itself is executed); natively the tool
//! runs as a process of its own in a scratch directory.

use crate::sym::*;
use rx509::der::*;
use rx509::x509::printer::LinePrinter;

pub enum Fs<'a> {
    /// the named file does not exist (there is another, with contents that decode)
    Missing,
    /// it is a directory
    Directory,
    File(&'a [u8]),
    /// a pipe, whose contents come in pieces: up to the first place, up to the second, the rest
    Pipe(&'a [u8], [usize; 2]),
}
pub struct Run {
    pub code: i32,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}
/// The name of the file in the scratch directory.
pub const NAME: &str = "in.der";

#[cfg(not(feature = "native"))]
mod imp {
    use super::*;
    use std::io::Write;
    extern "C" {
        fn rsym_init(argc: i32, argv: *const *const u8, envp: *const *const u8);
        fn rsym_end() -> !;
    }
    struct Model {
        out: Vec<u8>,
        err: Vec<u8>,
        file: Vec<u8>,
        name: Vec<u8>,
        /// 0 missing, 1 directory, 2 file, 3 pipe
        state: u8,
        /// ends of the pieces a pipe delivers
        cuts: [usize; 2],
        pos: usize,
        open: bool,
        then: Option<fn(&Run)>,
    }
    static mut M: Model = Model { out: vec![], err: vec![], file: vec![], name: vec![], state: 0, cuts: [0; 2], pos: 0, open: false, then: None };
    static mut ERRNO: i32 = 0;
    #[allow(static_mut_refs)]
    fn m() -> &'static mut Model {
        unsafe { &mut M }
    }
    fn fails(errno: i32) -> isize {
        unsafe { ERRNO = errno };
        -1
    }
    #[no_mangle]
    extern "C" fn __errno_location() -> *mut i32 {
        &raw mut ERRNO
    }
    #[no_mangle]
    unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
        let b = core::slice::from_raw_parts(p, n);
        match fd {
            1 => m().out.extend_from_slice(b),
            2 => m().err.extend_from_slice(b),
            _ => return fails(9),
        }
        n as isize
    }
    #[repr(C)]
    struct Iov {
        p: *const u8,
        n: usize,
    }
    #[no_mangle]
    unsafe extern "C" fn writev(fd: i32, v: *const Iov, n: i32) -> isize {
        let mut t = 0;
        for k in 0..n as usize {
            let i = &*v.add(k);
            let r = write(fd, i.p, i.n);
            if r < 0 {
                return r;
            }
            t += r;
        }
        t
    }
    #[no_mangle]
    unsafe extern "C" fn open64(path: *const u8, _flags: i32, _mode: i32) -> i32 {
        let mut same = true;
        for (k, c) in m().name.iter().chain(&[0]).enumerate() {
            if *path.add(k) != *c {
                same = false;
                break;
            }
        }
        if !same || m().state == 0 {
            return fails(2) as i32;
        }
        m().open = true;
        m().pos = 0;
        7
    }
    #[no_mangle]
    unsafe extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> isize {
        let m = m();
        if fd != 7 || !m.open {
            return fails(9);
        }
        if m.state == 1 {
            return fails(21);
        }
        let mut to = m.file.len();
        if m.state == 3 {
            for c in m.cuts.iter().rev() {
                if m.pos < *c {
                    to = *c;
                }
            }
        }
        let k = n.min(to - m.pos);
        core::ptr::copy_nonoverlapping(m.file.as_ptr().add(m.pos), p, k);
        m.pos += k;
        k as isize
    }
    #[no_mangle]
    unsafe extern "C" fn close(fd: i32) -> i32 {
        if fd != 7 || !m().open {
            return fails(9) as i32;
        }
        m().open = false;
        0
    }
    #[no_mangle]
    extern "C" fn statx(_: i32, _: *const u8, _: i32, _: u32, _: *mut u8) -> i32 {
        fails(38) as i32
    }
    #[no_mangle]
    unsafe extern "C" fn fstat64(fd: i32, st: *mut u8) -> i32 {
        if fd != 7 || !m().open {
            return fails(9) as i32;
        }
        core::ptr::write_bytes(st, 0, 144);
        let (mode, len) = match m().state {
            1 => (0o040755, 4096),
            2 => (0o100644, m().file.len() as i64),
            _ => (0o010644, 0),
        };
        *(st.add(24) as *mut u32) = mode;
        *(st.add(48) as *mut i64) = len;
        0
    }
    #[no_mangle]
    extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
        let m = m();
        if fd != 7 || !m.open {
            return fails(9) as i64;
        }
        if m.state == 3 {
            return fails(29) as i64;
        }
        m.pos = match whence {
            0 => off as usize,
            1 => (m.pos as i64 + off) as usize,
            _ => (m.file.len() as i64 + off) as usize,
        };
        m.pos as i64
    }
    #[no_mangle]
    extern "C" fn fcntl(fd: i32, _: i32) -> i32 {
        if fd < 3 || (fd == 7 && m().open) {
            0
        } else {
            fails(9) as i32
        }
    }
    #[no_mangle]
    extern "C" fn getenv(_: *const u8) -> *const u8 {
        core::ptr::null()
    }
    #[no_mangle]
    unsafe extern "C" fn __xpg_strerror_r(e: i32, p: *mut u8, n: usize) -> i32 {
        let t: &[u8] = match e {
            2 => b"No such file or directory\0",
            21 => b"Is a directory\0",
            _ => b"Some error\0",
        };
        if t.len() > n {
            return 34;
        }
        core::ptr::copy_nonoverlapping(t.as_ptr(), p, t.len());
        0
    }
    #[no_mangle]
    extern "C" fn exit(code: i32) -> ! {
        let m = m();
        let r = Run { code: code & 255, out: core::mem::take(&mut m.out), err: core::mem::take(&mut m.err) };
        if let Some(f) = m.then {
            f(&r);
        }
        unsafe { rsym_end() }
    }
    /// Run `main` with these arguments behind the program's name where the only file is `name`,
    /// then `then`.  Ends the path.
    pub fn tool_on(main: fn() -> i32, name: &[u8], args: &[&[u8]], fs: Fs, then: fn(&Run)) -> ! {
        let m = m();
        m.then = Some(then);
        m.name = name.to_vec();
        match fs {
            Fs::Missing => m.state = 0,
            Fs::Directory => m.state = 1,
            Fs::File(b) => {
                m.state = 2;
                m.file = b.to_vec();
            }
            Fs::Pipe(b, cuts) => {
                m.state = 3;
                m.file = b.to_vec();
                m.cuts = cuts;
            }
        }
        let mut keep: Vec<Vec<u8>> = vec![b"decoder\0".to_vec()];
        for a in args {
            let mut x = a.to_vec();
            x.push(0);
            keep.push(x);
        }
        let mut argv: Vec<*const u8> = keep.iter().map(|x| x.as_ptr()).collect();
        argv.push(core::ptr::null());
        unsafe { rsym_init(keep.len() as i32, argv.as_ptr(), core::ptr::null()) };
        let code = main();
        let _ = std::io::stdout().flush();
        exit(code)
    }
    /// What `f` prints to the standard output.
    pub fn capture(f: impl FnOnce()) -> Vec<u8> {
        let _ = std::io::stdout().flush();
        let n = m().out.len();
        f();
        let _ = std::io::stdout().flush();
        m().out[n..].to_vec()
    }
}

#[cfg(feature = "native")]
mod imp {
    use super::*;
    use std::io::{Read, Seek, Write};
    use std::ffi::OsStr;
    use std::os::fd::AsRawFd;
    use std::os::unix::ffi::OsStrExt;
    extern "C" {
        fn dup(fd: i32) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
        fn close(fd: i32) -> i32;
        fn mkfifo(path: *const u8, mode: u32) -> i32;
        fn ioctl(fd: i32, op: u64, ...) -> i32;
    }
    struct Scratch(std::path::PathBuf);
    impl Drop for Scratch {
        fn drop(&mut self) {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
    fn scratch() -> Scratch {
        let p = std::env::temp_dir().join(format!("rx509-replay-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn tool_on(_main: fn() -> i32, name: &[u8], args: &[&[u8]], fs: Fs, then: fn(&Run)) -> ! {
        let d = scratch();
        let file = d.0.join(OsStr::from_bytes(name));
        match fs {
            Fs::Missing => std::fs::write(d.0.join("other"), [5, 0]).expect("scratch file"),
            Fs::Directory => std::fs::create_dir(&file).expect("scratch directory"),
            Fs::File(b) => std::fs::write(&file, b).expect("scratch file"),
            Fs::Pipe(b, cuts) => {
                let p = file;
                let mut c = p.as_os_str().as_bytes().to_vec();
                c.push(0);
                check(unsafe { mkfifo(c.as_ptr(), 0o644) } == 0, "making a pipe");
                let b = b.to_vec();
                std::thread::spawn(move || {
                    // opens as soon as the tool does
                    let mut f = std::fs::OpenOptions::new().write(true).open(&p).expect("pipe");
                    let mut at = 0;
                    for c in [cuts[0], cuts[1], b.len()] {
                        if at < c {
                            if f.write_all(&b[at..c]).is_err() {
                                return;
                            }
                            at = c;
                            // until the tool has read it, or is gone
                            let mut left = 1i32;
                            let mut n = 0;
                            while left > 0 && n < 4000 {
                                unsafe { ioctl(f.as_raw_fd(), 0x541b, &mut left as *mut i32) };
                                std::thread::sleep(std::time::Duration::from_micros(500));
                                n += 1;
                            }
                        }
                    }
                });
            }
        }
        let o = std::process::Command::new("/proc/self/exe")
            .args(args.iter().map(|a| OsStr::from_bytes(a)))
            .env("REPLAY_AS_TOOL", "1")
            .current_dir(&d.0)
            .stdin(std::process::Stdio::null())
            .output()
            .expect("running the tool");
        drop(d);
        use std::os::unix::process::ExitStatusExt;
        let code = match o.status.code() {
            Some(c) => c,
            None => 128 + o.status.signal().unwrap_or(0),
        };
        if code == 101 || code >= 128 && code != 255 {
            crate::sym::fail("the tool panicked or was killed");
        }
        then(&Run { code, out: o.stdout, err: o.stderr });
        println!("REPLAY ok {}", crate::sym::report());
        std::process::exit(0)
    }
    pub fn capture(f: impl FnOnce()) -> Vec<u8> {
        let d = scratch();
        let p = d.0.join("out");
        let mut file = std::fs::OpenOptions::new().read(true).write(true).create(true).open(&p).expect("scratch file");
        let _ = std::io::stdout().flush();
        let keep = unsafe { dup(1) };
        unsafe { dup2(file.as_raw_fd(), 1) };
        f();
        let _ = std::io::stdout().flush();
        unsafe {
            dup2(keep, 1);
            close(keep);
        }
        let mut b = vec![];
        file.rewind().expect("rewind");
        file.read_to_end(&mut b).expect("read");
        b
    }
}
pub use imp::*;
pub fn tool(main: fn() -> i32, args: &[&str], fs: Fs, then: fn(&Run)) -> ! {
    let a: Vec<&[u8]> = args.iter().map(|a| a.as_bytes()).collect();
    tool_on(main, NAME.as_bytes(), &a, fs, then)
}

/// The decoder tool: its source, compiled into the harness.
#[path = "/repo/decoder/src/main.rs"]
#[allow(dead_code)]
pub mod decoder;

/// What the language runtime does around `main`.
pub fn start() -> i32 {
    let c = std::process::Termination::report(decoder::main());
    (unsafe { core::mem::transmute::<std::process::ExitCode, u8>(c) }) as i32
}

// ------------------------------------------------------------------ reading text output

/// The lines of `b`; `None` when the last one is not terminated.
pub fn lines(b: &[u8]) -> Option<Vec<&[u8]>> {
    let mut r = vec![];
    let mut from = 0;
    for i in 0..b.len() {
        if b[i] == b'\n' {
            r.push(&b[from..i]);
            from = i + 1;
        }
    }
    if from == b.len() {
        Some(r)
    } else {
        None
    }
}
/// Number of leading spaces.
pub fn indent(l: &[u8]) -> usize {
    let mut n = 0;
    while n < l.len() && l[n] == b' ' {
        n += 1;
    }
    n
}

/// A line of a report: how deep it is nested, and its text.
pub struct Line {
    pub depth: usize,
    /// how often the printer was told that a line begins (it may be told twice)
    pub begun: usize,
    pub text: Vec<u8>,
}
/// Collects the lines printed, whatever pieces they come in.
#[derive(Default)]
pub struct Report {
    pub depth: usize,
    pub lines: Vec<Line>,
    cur: Vec<u8>,
    begun: usize,
}
impl Report {
    fn put(&mut self, s: &[u8]) {
        self.cur.extend_from_slice(s);
    }
    fn fmt(&mut self, a: &core::fmt::Arguments) {
        let mut t = crate::common::Text::default();
        let ok = core::fmt::Write::write_fmt(&mut t, *a).is_ok();
        check(ok, "formatting failed");
        self.put(&t.0);
    }
    fn end(&mut self) {
        let text = core::mem::take(&mut self.cur);
        let begun = core::mem::take(&mut self.begun);
        self.lines.push(Line { depth: self.depth, begun, text });
    }
}
impl LinePrinter for Report {
    fn begin_type(&mut self) {
        self.depth += 1;
    }
    fn begin_line(&mut self) {
        check(self.cur.is_empty(), "a line begun within a line");
        self.begun += 1;
    }
    fn print_fmt(&mut self, a: &core::fmt::Arguments) {
        self.fmt(a)
    }
    fn print_str(&mut self, s: &str) {
        self.put(s.as_bytes())
    }
    fn println_fmt(&mut self, a: &core::fmt::Arguments) {
        self.fmt(a);
        self.end()
    }
    fn println_str(&mut self, s: &str) {
        self.put(s.as_bytes());
        self.end()
    }
    fn end_type(&mut self) {
        check(self.depth > 0, "more levels closed than opened");
        self.depth -= 1;
    }
}
/// What a walk over `b` delivers, as text.
#[derive(Default)]
pub struct Walk {
    pub depth: usize,
    pub lines: Vec<Line>,
    /// contents dumped below the line, if any
    pub dumps: Vec<Option<Vec<u8>>>,
}
impl ParseHandler for Walk {
    fn begin_constructed(&mut self) {
        self.depth += 1;
    }
    fn end_constructed(&mut self) {
        check(self.depth > 0, "more levels closed than opened");
        self.depth -= 1;
    }
    fn on_type(&mut self, t: &ASNType) {
        self.lines.push(Line { depth: self.depth, begun: 1, text: crate::common::show(t) });
        self.dumps.push(match t {
            ASNType::BitString(x) => x.value.octets().map(|o| o.to_vec()),
            _ => None,
        });
    }
    fn on_error(&mut self, _: &ASNError) {}
}
/// Indentation is a matter of depth alone: none at depth 0, more the deeper.
#[derive(Default)]
pub struct Levels(Vec<Option<usize>>);
impl Levels {
    pub fn check(&mut self, depth: usize, n: usize) {
        while self.0.len() <= depth {
            self.0.push(None);
        }
        match self.0[depth] {
            Some(k) => check(n == k, "indentation differs between lines of the same depth"),
            None => {
                check(depth > 0 || n == 0, "the outermost level is indented");
                for (d, k) in self.0.iter().enumerate() {
                    if let Some(k) = *k {
                        check(if d < depth { k < n } else { k > n }, "indentation does not follow the nesting");
                    }
                }
                self.0[depth] = Some(n);
            }
        }
    }
}
/// Hexadecimal digits of a dumped line, separators left out.
pub fn undump(l: &[u8], out: &mut Vec<u8>) {
    for c in l {
        if *c != b':' && *c != b' ' {
            out.push(*c);
        }
    }
}
/// The output of the DER printer against a walk of the harness's own.  Returns the lines behind
/// the last element.
pub fn compare_der<'o>(out: &'o [u8], b: &[u8]) -> (bool, &'o [u8]) {
    let mut w = Walk::default();
    let ok = parse_all(b, &mut w).is_ok();
    let mut at = 0;
    let mut lv = Levels::default();
    for (e, d) in w.lines.iter().zip(&w.dumps) {
        let n = indent(&out[at..]);
        lv.check(e.depth, n);
        at = expect(out, at + n, &e.text);
        if let Some(d) = d {
            let mut hex = vec![];
            while hex.len() < 2 * d.len() {
                let n = indent(&out[at..]);
                lv.check(e.depth + 1, n);
                at += n;
                let mut k = at;
                while k < out.len() && out[k] != b'\n' {
                    k += 1;
                }
                check(k < out.len(), "contents not dumped completely");
                undump(&out[at..k], &mut hex);
                at = k + 1;
            }
            let mut good = hex.len() == 2 * d.len();
            for i in 0..d.len() {
                good &= (hex[2 * i] == crate::common::hexdigit(d[i] / 16)) & (hex[2 * i + 1] == crate::common::hexdigit(d[i] % 16));
            }
            check(good, "contents dumped differ");
        }
    }
    (ok, &out[at..])
}
/// The text `t` (which may span lines) and the end of the line.
fn expect(out: &[u8], at: usize, t: &[u8]) -> usize {
    let end = at + t.len();
    check(end < out.len() && out[end] == b'\n', "line printed missing or not of the element's length");
    check(same(&out[at..end], t), "line printed differs from the element");
    end + 1
}
/// The output of the console printer against what the certificate prints into `Report`.
pub fn compare_report(out: &[u8], r: &Report) {
    let mut at = 0;
    let mut lv = Levels::default();
    for e in &r.lines {
        let mut k = at;
        if e.begun > 0 {
            let (a, b) = (indent(&out[at..]), indent(&e.text));
            check(a >= b && (a - b) % e.begun == 0, "line printed differs from the report");
            lv.check(e.depth, (a - b) / e.begun);
            k += a - b;
        }
        at = expect(out, k, &e.text);
    }
    check(at == out.len(), "output beyond the report");
}
/// Whether `t` occurs in `b`, letters compared regardless of case.
pub fn mentions(b: &[u8], t: &[u8]) -> bool {
    let mut i = 0;
    while i + t.len() <= b.len() {
        let mut ok = true;
        for k in 0..t.len() {
            if b[i + k].to_ascii_lowercase() != t[k] {
                ok = false;
                break;
            }
        }
        if ok {
            return true;
        }
        i += 1;
    }
    false
}
