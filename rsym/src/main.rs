mod dbg;
mod exec;
mod expr;
mod ir;
mod mem;
mod parse;
mod z3;

use exec::*;
use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

struct Shared {
    q: Mutex<Queue>,
    cv: Condvar,
    idle: AtomicUsize,
    timeup: AtomicBool,
    /// when the first violation was found: the rest then gets two more minutes
    viol: std::sync::OnceLock<Instant>,
}
struct Queue {
    work: VecDeque<Work>,
    active: usize,
    done: bool,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut ll = String::new();
    let mut json = String::new();
    let mut threads = 8usize;
    let mut time = 600.0f64;
    let mut z3_ms = 30000u32;
    let mut dump_every = 0u64;
    let mut dump_dir = String::new();
    let mut repo = "/repo/".to_string();
    let mut lim = Limits { max_steps: 100_000_000, max_conc: 600, samples: 8, tier: 0, seed: 1, max_viol: 6, concrete: None };
    let mut jobs: Vec<(String, u64)> = vec![];
    let mut i = 0;
    while i < args.len() {
        let a = args[i].clone();
        let mut val = || {
            i += 1;
            args[i].clone()
        };
        match a.as_str() {
            "--selftest" => {
                let n: usize = val().parse().unwrap();
                match expr::selftest(lim.seed, n) {
                    Ok(k) => {
                        println!("selftest ok: {} comparisons", k);
                        return;
                    }
                    Err(e) => {
                        println!("selftest FAILED: {}", e);
                        std::process::exit(2);
                    }
                }
            }
            "--ll" => ll = val(),
            "--json" => json = val(),
            "--threads" => threads = val().parse().unwrap(),
            "--time" => time = val().parse().unwrap(),
            "--z3-ms" => z3_ms = val().parse().unwrap(),
            "--tier" => lim.tier = val().parse().unwrap(),
            "--seed" => lim.seed = val().parse().unwrap(),
            "--samples" => lim.samples = val().parse().unwrap(),
            "--max-steps" => lim.max_steps = val().parse().unwrap(),
            "--max-conc" => lim.max_conc = val().parse().unwrap(),
            "--dump-every" => dump_every = val().parse().unwrap(),
            "--dump-dir" => dump_dir = val(),
            "--repo" => repo = val(),
            "--concrete" => {
                let h = val();
                lim.concrete = Some((0..h.len() / 2).map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap()).collect());
            }
            _ => {
                let (f, n) = match a.split_once(':') {
                    Some((f, n)) => (f.to_string(), n.parse().unwrap()),
                    None => (a, 0),
                };
                jobs.push((f, n));
            }
        }
        i += 1;
    }
    let t0 = Instant::now();
    let module = match parse::Module::load(&ll) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("rsym: {}", e);
            std::process::exit(2);
        }
    };
    let t_parse = t0.elapsed().as_secs_f64();
    let shared = Shared {
        q: Mutex::new(Queue {
            work: (0..jobs.len()).map(|j| Work { job: j, dec: vec![], model: vec![] }).collect(),
            active: 0,
            done: false,
        }),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        timeup: AtomicBool::new(false),
        viol: std::sync::OnceLock::new(),
    };
    let stats: Vec<Mutex<JobStats>> = jobs.iter().map(|_| Mutex::new(JobStats::default())).collect();
    let stopped: Vec<AtomicBool> = jobs.iter().map(|_| AtomicBool::new(false)).collect();
    let visited: Mutex<HashSet<(u32, u32)>> = Mutex::new(HashSet::new());
    // queries, sat, unsat, unknown, cache hits, model hits, solver time, max query time
    let solver = Mutex::new((0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0f64, 0f64, 0u64));
    let dumps: Mutex<Vec<(String, bool)>> = Mutex::new(vec![]);
    let deadline = t0 + Duration::from_secs_f64(time);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            let (module, shared, stats, stopped, visited, solver, jobs, lim, dumps) =
                (&module, &shared, &stats, &stopped, &visited, &solver, &jobs, &lim, &dumps);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, move || {
                    let mut w = Worker::new(module, lim.clone(), z3_ms);
                    w.z3.dump_every = dump_every;
                    'outer: loop {
                        // fetch work
                        let work = {
                            let mut q = shared.q.lock().unwrap();
                            loop {
                                if q.done {
                                    break 'outer;
                                }
                                if let Some(x) = q.work.pop_front() {
                                    q.active += 1;
                                    break x;
                                }
                                if q.active == 0 {
                                    q.done = true;
                                    shared.cv.notify_all();
                                    break 'outer;
                                }
                                shared.idle.fetch_add(1, Ordering::SeqCst);
                                q = shared.cv.wait(q).unwrap();
                                shared.idle.fetch_sub(1, Ordering::SeqCst);
                            }
                        };
                        let job = work.job;
                        let tj = Instant::now();
                        w.st = JobStats::default();
                        w.job_arg = jobs[job].1;
                        if w.ar.nodes.len() > 3_000_000 {
                            w.reset_arena();
                        }
                        let mut local: Vec<State> = vec![];
                        let mut early: Option<String> = None;
                        match w.start(&jobs[job].0, &work) {
                            Ok(s) => local.push(s),
                            Err(e) => early = Some(e),
                        }
                        if let Some(e) = early {
                            *w.st.incon.entry(e).or_insert(0) += 1;
                        }
                        let stop = || -> bool {
                            if shared.timeup.load(Ordering::Relaxed) || stopped[job].load(Ordering::Relaxed) {
                                return true;
                            }
                            let late = shared.viol.get().map_or(false, |t: &Instant| t.elapsed() > Duration::from_secs(120));
                            if late || Instant::now() > deadline {
                                shared.timeup.store(true, Ordering::SeqCst);
                                return true;
                            }
                            false
                        };
                        while let Some(mut s) = local.pop() {
                            if stopped[job].load(Ordering::Relaxed) {
                                break;
                            }
                            if stop() {
                                *w.st.incon.entry("time limit".into()).or_insert(0) += 1;
                                break;
                            }
                            let r = w.run(&mut s, &stop);
                            local.append(&mut w.out);
                            let (ns, _ck, md, _steps) = w.info(&s);
                            w.st.maxdepth = w.st.maxdepth.max(md);
                            w.st.max_syms = w.st.max_syms.max(ns);
                            match r {
                                Stop::Done => {
                                    w.st.paths += 1;
                                    let smp = w.finish(&s);
                                    w.st.samples.push(smp);
                                    if w.st.samples.len() > 4 * lim.samples + 16 {
                                        trim(&mut w.st.samples, lim.samples);
                                    }
                                }
                                Stop::Kill => w.st.killed += 1,
                                Stop::Viol(kind, msg) => {
                                    w.st.paths += 1;
                                    let _ = shared.viol.set(Instant::now());
                                    let (model, nsyms) = w.model_of(&s);
                                    let loc = w.location(&s);
                                    if !w.st.violations.iter().any(|v| v.msg == msg && v.kind == kind) {
                                        w.st.violations.push(Violation { kind, msg, loc, model, nsyms });
                                    }
                                }
                                Stop::Incon(m) => {
                                    if !(stopped[job].load(Ordering::Relaxed) && m == "time limit") {
                                        *w.st.incon.entry(m).or_insert(0) += 1;
                                    }
                                }
                            }
                            // stop a job with enough violations
                            if !w.st.violations.is_empty() {
                                let n = {
                                    let mut g = stats[job].lock().unwrap();
                                    for v in w.st.violations.drain(..) {
                                        if !g.violations.iter().any(|x| x.msg == v.msg && x.kind == v.kind) {
                                            g.violations.push(v);
                                        }
                                    }
                                    g.violations.len()
                                };
                                if n >= lim.max_viol {
                                    stopped[job].store(true, Ordering::SeqCst);
                                }
                            }
                            // share
                            if local.len() > 1 && shared.idle.load(Ordering::Relaxed) > 0 {
                                let mut q = shared.q.lock().unwrap();
                                if q.work.is_empty() {
                                    let give = (local.len() / 2).min(8).max(1);
                                    for s in local.drain(..give) {
                                        q.work.push_back(w.donate(&s, job));
                                    }
                                    shared.cv.notify_all();
                                }
                            }
                            if w.ar.nodes.len() > 12_000_000 && !local.is_empty() {
                                // bound memory: hand everything back as prefixes and start afresh
                                let mut q = shared.q.lock().unwrap();
                                for s in local.drain(..) {
                                    q.work.push_front(w.donate(&s, job));
                                }
                                drop(q);
                                w.reset_arena();
                            }
                        }
                        trim(&mut w.st.samples, lim.samples);
                        {
                            let mut g = stats[job].lock().unwrap();
                            let l = std::mem::take(&mut w.st);
                            g.paths += l.paths;
                            g.forks += l.forks;
                            g.killed += l.killed;
                            g.steps += l.steps;
                            g.checks += l.checks;
                            g.checks_solver += l.checks_solver;
                            g.maxdepth = g.maxdepth.max(l.maxdepth);
                            g.max_syms = g.max_syms.max(l.max_syms);
                            for (k, v) in l.covers {
                                *g.covers.entry(k).or_insert(0) += v;
                            }
                            for (k, v) in l.incon {
                                *g.incon.entry(k).or_insert(0) += v;
                            }
                            g.samples.extend(l.samples);
                            trim(&mut g.samples, lim.samples);
                            g.time += tj.elapsed().as_secs_f64();
                        }
                        let mut q = shared.q.lock().unwrap();
                        q.active -= 1;
                        if q.active == 0 && q.work.is_empty() {
                            q.done = true;
                        }
                        shared.cv.notify_all();
                    }
                    visited.lock().unwrap().extend(w.visited.iter().copied());
                    let mut g = solver.lock().unwrap();
                    g.0 += w.z3.queries;
                    g.1 += w.z3.sat;
                    g.2 += w.z3.unsat;
                    g.3 += w.z3.unknown;
                    g.4 += w.cache_hits;
                    g.5 += w.model_hits;
                    g.6 += w.z3.time;
                    g.7 = g.7.max(w.z3.max_time);
                    g.8 += w.z3.fallbacks;
                    dumps.lock().unwrap().append(&mut w.z3.dump);
                })
                .unwrap();
        }
    });
    // ------------------------------------------------------------------ report
    let mut d = dbg::Dbg::new(&module);
    let mut files: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut funcs: BTreeSet<String> = BTreeSet::new();
    for (f, b) in visited.lock().unwrap().iter() {
        if let Ok(body) = module.body(*f) {
            for ins in &body.blocks[*b as usize].insts {
                if ins.dbg != 0 {
                    for l in d.chain(ins.dbg) {
                        if l.file.starts_with(&repo) {
                            files.entry(l.file[repo.len()..].to_string()).or_default().insert(l.line);
                            funcs.insert(l.func);
                        }
                    }
                }
            }
        }
    }
    let mut o = String::from("{\n");
    o.push_str(&format!("\"z3\": {}, \"parse_s\": {:.3}, \"wall_s\": {:.3},\n", esc(&z3::version()), t_parse, t0.elapsed().as_secs_f64()));
    let s = solver.lock().unwrap();
    o.push_str(&format!(
        "\"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cache_hits\": {}, \"model_hits\": {}, \"solver_s\": {:.3}, \"max_query_s\": {:.3}, \"fallbacks\": {},\n",
        s.0, s.1, s.2, s.3, s.4, s.5, s.6, s.7, s.8
    ));
    o.push_str("\"jobs\": [\n");
    for (j, (name, arg)) in jobs.iter().enumerate() {
        let g = stats[j].lock().unwrap();
        o.push_str(&format!(
            " {{\"name\": {}, \"arg\": {}, \"paths\": {}, \"forks\": {}, \"killed\": {}, \"instructions\": {}, \"checks\": {}, \"checks_solver\": {}, \"max_call_depth\": {}, \"symbolic_bytes\": {}, \"cpu_s\": {:.3},\n",
            esc(name), arg, g.paths, g.forks, g.killed, g.steps, g.checks, g.checks_solver, g.maxdepth, g.max_syms, g.time
        ));
        o.push_str(&format!("  \"covers\": {{{}}},\n", g.covers.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ")));
        o.push_str(&format!("  \"inconclusive\": {{{}}},\n", g.incon.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ")));
        o.push_str("  \"violations\": [");
        for (k, v) in g.violations.iter().enumerate() {
            if k > 0 {
                o.push_str(", ");
            }
            let mut locs = vec![];
            for part in v.loc.split(',') {
                if let Ok(id) = part.parse::<u32>() {
                    for l in d.chain(id) {
                        locs.push(format!("{}:{} {}", l.file, l.line, l.func));
                    }
                }
            }
            locs.truncate(20);
            o.push_str(&format!(
                "{{\"kind\": {}, \"msg\": {}, \"input\": \"{}\", \"stack\": [{}]}}",
                esc(&v.kind),
                esc(&v.msg),
                hex(&v.model[..v.nsyms as usize]),
                locs.iter().map(|l| esc(l)).collect::<Vec<_>>().join(", ")
            ));
        }
        o.push_str("],\n  \"samples\": [");
        for (k, v) in g.samples.iter().enumerate() {
            if k > 0 {
                o.push_str(", ");
            }
            o.push_str(&format!(
                "{{\"input\": \"{}\", \"obs\": [{}]}}",
                hex(&v.model[..v.nsyms as usize]),
                v.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
            ));
        }
        o.push_str("]}");
        o.push_str(if j + 1 < jobs.len() { ",\n" } else { "\n" });
    }
    o.push_str("],\n\"functions\": [");
    o.push_str(&funcs.iter().map(|f| esc(f)).collect::<Vec<_>>().join(", "));
    o.push_str("],\n\"lines\": {");
    o.push_str(
        &files
            .iter()
            .map(|(f, l)| format!("{}: [{}]", esc(f), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(", "),
    );
    o.push_str("},\n\"dumped\": ");
    let dm = dumps.lock().unwrap();
    if !dump_dir.is_empty() {
        let _ = std::fs::create_dir_all(&dump_dir);
        for (k, (t, sat)) in dm.iter().enumerate() {
            let _ = std::fs::write(format!("{}/q{}-{}.smt2", dump_dir, k, if *sat { "sat" } else { "unsat" }), format!("(set-logic QF_BV)\n{}\n(check-sat)\n", t));
        }
    }
    o.push_str(&format!("{}\n}}\n", dm.len()));
    if json.is_empty() {
        print!("{}", o);
    } else {
        std::fs::write(&json, o).unwrap();
    }
}

fn trim(v: &mut Vec<Sample>, n: usize) {
    v.sort_by_key(|s| s.prio);
    v.truncate(n);
}
