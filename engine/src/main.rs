mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
use exec::*;
use expr::*;
use ir::Val;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ffi::{c_int, c_void};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> c_int;
    fn waitpid(p: c_int, st: *mut c_int, o: c_int) -> c_int;
    fn mmap(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
    fn _exit(c: c_int) -> !;
}

#[derive(Clone)]
struct Rec {
    kind: String, // ok | violation
    msg: String,
    stack: Vec<String>,
    inputs: Vec<u64>,
    trace: Vec<u64>,
}

#[derive(Default)]
struct Out {
    done: u64,
    pruned: u64,
    infeasible: u64,
    violations: u64,
    errors: BTreeMap<String, u64>,
    unexplored: u64,
    frac: f64,
    multi_paths: u64,
    max_depth: u32,
    max_steps: u64,
    covers: BTreeMap<u32, u64>,
    recs: Vec<Rec>,
    vio: Vec<Rec>,
    viosites: BTreeMap<String, u64>,
    asserts: u64,
    noassert: u64,
}

struct Args {
    bc: String,
    entry: String,
    params: Vec<u64>,
    budget: u64,
    time: u64,
    jobs: usize,
    samples: u64,
    out: String,
    concrete: Option<Vec<u64>>,
    verify_dom: bool,
    maxvio: u64,
}

fn demangle(s: &str) -> String {
    // legacy mangling only; good enough for reports
    if let Some(r) = s.strip_prefix("_ZN") {
        let mut o = vec![];
        let mut c = r;
        loop {
            let d: String = c.chars().take_while(|x| x.is_ascii_digit()).collect();
            if d.is_empty() {
                break;
            }
            let n: usize = d.parse().unwrap();
            let rest = &c[d.len()..];
            if n > rest.len() {
                break;
            }
            o.push(rest[..n].to_string());
            c = &rest[n..];
        }
        if o.last().map_or(false, |x| x.len() == 17 && x.starts_with('h')) {
            o.pop();
        }
        return o.join("::");
    }
    s.to_string()
}

fn rec(st: &State, kind: &str, msg: String) -> Rec {
    let mut tr = vec![];
    let mut t = st.trace.clone();
    while let Some(x) = t {
        tr.push(match &x.v {
            Val::C(c) => *c,
            Val::E(e) => st.eval(e) as u64,
            _ => 0,
        });
        t = x.prev.clone();
    }
    tr.reverse();
    Rec { kind: kind.into(), msg, stack: st.frames.iter().rev().take(14).map(|f| demangle(&f.f.name)).collect(), inputs: st.model.clone(), trace: tr }
}

fn fraction(st: &State) -> f64 {
    let mut f = 1.0;
    for i in 0..st.dom.len() {
        if st.wide[i] == 8 {
            f *= dom_count(&st.dom[i]) as f64 / dom_count(&st.dom0[i]) as f64;
        }
    }
    f
}

/// the state that covers the largest part of the input space
fn pop_largest(work: &mut std::collections::VecDeque<State>) -> Option<State> {
    let mut best = (0, -1.0);
    for (i, s) in work.iter().enumerate() {
        let f = if s.frac >= 0.0 { s.frac } else { fraction(s) };
        if f > best.1 {
            best = (i, f);
        }
    }
    work.swap_remove_back(best.0)
}

/// Explore from `work`; stops (returning the rest) when `limit` states are queued (breadth first).
fn explore(en: &mut Engine, work: &mut std::collections::VecDeque<State>, bfs_limit: usize, end: Instant, out: &mut Out, a: &Args) {
    let mut rng: u64 = 88172645463325252;
    while let Some(mut st) = if bfs_limit > 0 { pop_largest(work) } else { work.pop_back() } {
        if Instant::now() > end {
            out.unexplored += 1 + work.len() as u64;
            work.clear();
            return;
        }
        let mut stuck = (0, 0);
        loop {
            match en.run(&mut st) {
                Stop::Fork(cons) => {
                    en.cnt.forks += 1;
                    if st.steps <= stuck.0 + 1 {
                        stuck.0 = st.steps;
                        stuck.1 += 1;
                        if stuck.1 > 200 {
                            let f = st.frames.last().map(|f| demangle(&f.f.name)).unwrap_or_default();
                            *out.errors.entry(format!("no progress when splitting [in {}]", f)).or_insert(0) += 1;
                            break;
                        }
                    } else {
                        stuck = (st.steps, 0);
                    }
                    st.depth += 1;
                    let mut kids = vec![];
                    for c in &cons {
                        let mut s = st.clone();
                        match en.constrain(&mut s, c) {
                            Ok(true) => kids.push(s),
                            Ok(false) => out.infeasible += 1,
                            Err(e) => *out.errors.entry(e).or_insert(0) += 1,
                        }
                    }
                    if kids.len() == 1 {
                        st = kids.pop().unwrap();
                        continue;
                    }
                    if kids.is_empty() {
                        *out.errors.entry("fork without feasible successor".into()).or_insert(0) += 1;
                        break;
                    }
                    for mut s in kids.into_iter().rev() {
                        if bfs_limit > 0 {
                            s.frac = fraction(&s);
                        }
                        work.push_back(s);
                    }
                    break;
                }
                stop => {
                    out.max_depth = out.max_depth.max(st.depth);
                    out.max_steps = out.max_steps.max(st.steps);
                    if st.pc.is_empty() {
                        out.frac += fraction(&st);
                    } else {
                        out.multi_paths += 1;
                    }
                    for c in st.covers.iter() {
                        *out.covers.entry(*c).or_insert(0) += 1;
                    }
                    out.asserts += st.asserts as u64;
                    match stop {
                        Stop::Done => {
                            out.done += 1;
                            if st.asserts == 0 {
                                out.noassert += 1;
                            }
                            // reservoir sample
                            if (out.recs.len() as u64) < a.samples {
                                out.recs.push(rec(&st, "ok", String::new()));
                            } else {
                                rng ^= rng << 13;
                                rng ^= rng >> 7;
                                rng ^= rng << 17;
                                let i = rng % out.done;
                                if i < a.samples {
                                    out.recs[i as usize] = rec(&st, "ok", String::new());
                                }
                            }
                        }
                        Stop::Pruned => out.pruned += 1,
                        Stop::Violation(m) => {
                            out.violations += 1;
                            let n = out.viosites.entry(m.clone()).or_insert(0);
                            *n += 1;
                            if *n <= 3 && out.vio.len() < 60 {
                                out.vio.push(rec(&st, "violation", m));
                            }
                            if out.violations >= a.maxvio {
                                out.unexplored += work.len() as u64;
                                work.clear();
                                return;
                            }
                        }
                        Stop::Err(e) => {
                            let r = rec(&st, "error", String::new());
                            let e = format!("{} [in {}]", e, r.stack.first().cloned().unwrap_or_default());
                            *out.errors.entry(e).or_insert(0) += 1;
                        }
                        Stop::Fork(_) => unreachable!(),
                    }
                    break;
                }
            }
        }
        if bfs_limit > 0 && work.len() >= bfs_limit {
            return;
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jrec(r: &Rec) -> String {
    format!(
        "{{\"kind\":{},\"msg\":{},\"stack\":[{}],\"inputs\":{:?},\"trace\":{:?}}}",
        js(&r.kind), js(&r.msg), r.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), r.inputs, r.trace
    )
}

fn dump(en: &Engine, o: &Out, wall: f64) -> String {
    let s = &en.solver.stats;
    let c = &en.cnt;
    let mut used: Vec<(&u32, &u64)> = en.used.iter().collect();
    used.sort();
    let used: Vec<String> = used.iter().map(|(f, n)| format!("{}:{}", js(&demangle(&en.m.funcs[**f as usize].name)), n)).collect();
    let mut sy: Vec<(&u32, &u64)> = en.symtouch.iter().collect();
    sy.sort();
    // several monomorphic instances may share a demangled name
    let mut agg: BTreeMap<String, u64> = BTreeMap::new();
    for (f, n) in sy {
        *agg.entry(demangle(&en.m.funcs[*f as usize].name)).or_insert(0) += *n;
    }
    let sy: Vec<String> = agg.iter().map(|(f, n)| format!("{}:{}", js(f), n)).collect();
    let mut aggu: BTreeSet<String> = BTreeSet::new();
    for u in used {
        aggu.insert(u);
    }
    let used: Vec<String> = {
        let mut m: BTreeMap<String, u64> = BTreeMap::new();
        for (f, n) in &en.used {
            *m.entry(demangle(&en.m.funcs[*f as usize].name)).or_insert(0) += *n;
        }
        m.iter().map(|(f, n)| format!("{}:{}", js(f), n)).collect()
    };
    let mapu = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
    format!(
        "{{\"paths\":{},\"pruned\":{},\"infeasible\":{},\"violations\":{},\"errors\":{{{}}},\"unexplored\":{},\"fraction\":{},\"multi_paths\":{},\"max_depth\":{},\"max_steps\":{},\"asserts\":{},\"noassert\":{},\"covers\":{{{}}},\"instrs\":{},\"forks\":{},\"sym_branches\":{},\"asserts_concrete\":{},\"asserts_symbolic\":{},\"z3_queries\":{},\"z3_sat\":{},\"z3_unsat\":{},\"z3_unknown\":{},\"z3_time\":{},\"dom_queries\":{},\"model_hits\":{},\"wall\":{},\"viosites\":{{{}}},\"samples\":[{}],\"vio\":[{}],\"sym_functions\":{{{}}},\"functions\":{{{}}}}}",
        o.done, o.pruned, o.infeasible, o.violations, mapu(&o.errors), o.unexplored, o.frac, o.multi_paths, o.max_depth, o.max_steps, o.asserts, o.noassert,
        o.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","),
        c.instrs, c.forks, c.branches_sym, c.asserts_concrete, c.asserts_symbolic, s.z3_queries, s.z3_sat, s.z3_unsat, s.z3_unknown, s.z3_time.as_secs_f64(), s.dom_queries, s.model_hits, wall,
        mapu(&o.viosites),
        o.recs.iter().map(jrec).collect::<Vec<_>>().join(","),
        o.vio.iter().map(jrec).collect::<Vec<_>>().join(","),
        sy.join(","),
        used.join(",")
    )
}

fn main() {
    let mut a = Args { bc: String::new(), entry: String::new(), params: vec![], budget: 300_000_000, time: 600, jobs: 8, samples: 20, out: String::new(), concrete: None, verify_dom: false, maxvio: 200 };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut v = || it.next().expect("argument value");
        match x.as_str() {
            "--bc" => a.bc = v(),
            "--entry" => a.entry = v(),
            "--param" => a.params = v().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "--budget" => a.budget = v().parse().unwrap(),
            "--time" => a.time = v().parse().unwrap(),
            "--jobs" => a.jobs = v().parse().unwrap(),
            "--samples" => a.samples = v().parse().unwrap(),
            "--out" => a.out = v(),
            "--concrete" => a.concrete = Some(v().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()),
            "--verify-dom" => a.verify_dom = true,
            "--maxvio" => a.maxvio = v().parse().unwrap(),
            "--z3-version" => {
                println!("{}", solver::version());
                return;
            }
            _ => panic!("unknown argument {}", x),
        }
    }
    // large native stack: recursion over terms
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(move || real_main(a)).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn real_main(a: Args) -> i32 {
    let t0 = Instant::now();
    let m = match ir::Module::load(&a.bc) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("zsym: {}", e);
            return 3;
        }
    };
    let entry = match m.find(&a.entry) {
        Some(e) => e,
        None => {
            eprintln!("zsym: no function {}", a.entry);
            return 3;
        }
    };
    let mut en = Engine::new(m);
    en.params = a.params.clone();
    en.budget = a.budget;
    en.verify_dom = a.verify_dom;
    en.solver.verify = a.verify_dom;
    en.fixed = a.concrete.clone();
    let st = match en.start(entry) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("zsym: {}", e);
            return 3;
        }
    };
    let load = t0.elapsed();
    let end = t0 + Duration::from_secs(a.time);
    let mut out = Out::default();
    let mut work = std::collections::VecDeque::new();
    work.push_back(st);
    let jobs = a.jobs.max(1);
    let target = if jobs > 1 { jobs * 100 } else { 0 };
    explore(&mut en, &mut work, target, end, &mut out, &a);
    let mut parts = vec![dump(&en, &out, t0.elapsed().as_secs_f64())];
    if !work.is_empty() {
        let mut items: Vec<State> = work.into_iter().collect();
        items.sort_by(|a, b| b.frac.partial_cmp(&a.frac).unwrap());
        let n = items.len();
        let ctr = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *mut std::sync::atomic::AtomicUsize;
        let mut pids = vec![];
        for j in 0..jobs {
            let pid = unsafe { fork() };
            if pid == 0 {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut out = Out::default();
                    en.cnt = Counters::default();
                    en.solver.stats = Default::default();
                    en.used = HashMap::new();
                    en.symtouch = HashMap::new();
                    let t1 = Instant::now();
                    let mut items: Vec<Option<State>> = items.into_iter().map(Some).collect();
                    loop {
                        let i = unsafe { (*ctr).fetch_add(1, std::sync::atomic::Ordering::SeqCst) };
                        if i >= n {
                            break;
                        }
                        if out.violations >= a.maxvio {
                            out.unexplored += 1;
                            continue;
                        }
                        // shallow items last-in: interleave
                        let s = items[i].take().unwrap();
                        let mut w = std::collections::VecDeque::new();
                        w.push_back(s);
                        explore(&mut en, &mut w, 0, end, &mut out, &a);
                    }
                    std::fs::write(format!("{}.{}", a.out, j), dump(&en, &out, t1.elapsed().as_secs_f64())).unwrap();
                }));
                unsafe { _exit(if r.is_ok() { 0 } else { 4 }) }
            }
            pids.push(pid);
        }
        let mut bad = 0;
        for p in pids {
            let mut s = 0;
            unsafe { waitpid(p, &mut s, 0) };
            if s != 0 {
                bad += 1;
            }
        }
        if bad > 0 {
            eprintln!("zsym: {} workers failed", bad);
        }
        for j in 0..jobs {
            let p = format!("{}.{}", a.out, j);
            if let Ok(s) = std::fs::read_to_string(&p) {
                parts.push(s);
                let _ = std::fs::remove_file(&p);
            }
        }
        if bad > 0 {
            parts.push("{\"errors\":{\"worker failed\":1}}".into());
        }
    }
    let s = format!("{{\"load\":{},\"wall\":{},\"z3\":{},\"parts\":[\n{}\n]}}\n", load.as_secs_f64(), t0.elapsed().as_secs_f64(), js(&solver::version()), parts.join(",\n"));
    std::fs::write(&a.out, s).unwrap();
    0
}
