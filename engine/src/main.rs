mod exec;
mod expr;
mod ir;
mod solver;

use exec::{End, Env, Machine};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

struct Task {
    job: u32,
    forced: Vec<(u64, bool)>,
    model: Vec<u8>,
}

#[derive(Default)]
struct JobRes {
    paths: u64,
    pruned: u64,
    steps: u64,
    covers: BTreeSet<u32>,
    viol: u64,
    cut: bool,
    last: f64,
}

struct Finding {
    job: u32,
    kind: &'static str,
    code: u64,
    msg: String,
    bytes: Vec<u8>,
}

#[derive(Default)]
struct Out {
    jobs: BTreeMap<u32, JobRes>,
    findings: Vec<Finding>,
    /// inputs of paths that met something the executor has no semantics for
    unsupported_at: Vec<Finding>,
    per_key: BTreeMap<(u32, String), u32>,
    knowns: BTreeMap<u32, (u64, u32, Vec<u8>)>,
    samples: Vec<(u32, Vec<u8>, u64, u8)>,
    unsupported: BTreeMap<String, u64>,
    fn_seen: Vec<bool>,
    blk: Vec<Vec<u64>>,
    forks: u64,
    inconclusive: u64,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let num = |k: &str, d: u64| get(k).map_or(d, |v| v.parse().unwrap());
    let ll = get("--ll").expect("--ll");
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("read ll");
    let module = ir::load(&text);
    drop(text);
    let load_s = t0.elapsed().as_secs_f64();
    let entry = module.fn_by_name[&get("--entry").unwrap_or("vh_main".into())];
    let harness = num("--harness", 0);
    let njobs = num("--jobs", 1) as u32;
    let only: Option<Vec<u32>> = get("--job").map(|s| s.split(',').map(|x| x.parse().unwrap()).collect());
    let threads = num("--threads", 8) as usize;
    let time = Duration::from_secs(num("--time", 600));
    let max_steps = num("--max-steps", 50_000_000);
    let sample = num("--sample", 40);
    let dump = num("--dump", 0);
    let stop_after = num("--stop-after", 400);
    let verbose = args.iter().any(|a| a == "-v");

    let env = Env::new(&module);
    let sh = solver::Shared::new();
    let queue: Mutex<Vec<Task>> = Mutex::new(match only {
        Some(v) => v.into_iter().map(|j| Task { job: j, forced: vec![], model: vec![] }).collect(),
        None => (0..njobs).rev().map(|j| Task { job: j, forced: vec![], model: vec![] }).collect(),
    });
    let cv = Condvar::new();
    let idle = AtomicUsize::new(0);
    let done = AtomicBool::new(false);
    let timed_out = AtomicBool::new(false);
    let stopped = AtomicBool::new(false);
    let npaths = AtomicU64::new(0);
    let nviol = AtomicU64::new(0);
    let job_paths: Vec<AtomicU64> = (0..4096).map(|_| AtomicU64::new(0)).collect();
    let out: Mutex<Out> = Mutex::new(Out { fn_seen: vec![false; module.funcs.len()], blk: module.funcs.iter().map(|f| vec![0; f.code.len() / 64 + 1]).collect(), ..Default::default() });
    let t1 = Instant::now();

    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || {
                    let mut m = Machine::new(&env, &sh);
                    m.max_steps = max_steps;
                    m.sol.dump_every = dump;
                    let mut local: Vec<(u32, JobRes)> = vec![];
                    let mut last_job = u32::MAX;
                    loop {
                        let task = {
                            let mut q = queue.lock().unwrap();
                            loop {
                                if done.load(SeqCst) {
                                    break None;
                                }
                                if let Some(t) = q.pop() {
                                    break Some(t);
                                }
                                let n = idle.fetch_add(1, SeqCst) + 1;
                                if n == threads {
                                    done.store(true, SeqCst);
                                    cv.notify_all();
                                    break None;
                                }
                                q = cv.wait(q).unwrap();
                                idle.fetch_sub(1, SeqCst);
                            }
                        };
                        let Some(task) = task else { break };
                        if m.ar.n.len() > 2_000_000 || (task.job != last_job && m.ar.n.len() > 300_000) {
                            m.reset_arena();
                        }
                        last_job = task.job;
                        let st = m.start(entry, &[harness, task.job as u64], task.forced, task.model);
                        m.pending.push(st);
                        let mut jr = JobRes::default();
                        while let Some(mut st) = m.pending.pop() {
                            if t1.elapsed() > time {
                                timed_out.store(true, SeqCst);
                                jr.cut = true;
                                m.pending.clear();
                                break;
                            }
                            if stopped.load(Relaxed) {
                                m.pending.clear();
                                break;
                            }
                            let s0 = st.steps;
                            let e = m.run(&mut st);
                            jr.steps += st.steps - s0;
                            let bytes = st.model[..st.nsym as usize].to_vec();
                            if st.inconclusive {
                                out.lock().unwrap().inconclusive += 1;
                            }
                            if !st.knowns.is_empty() {
                                let mut o = out.lock().unwrap();
                                for k in &st.knowns {
                                    o.knowns.entry(*k).or_insert((0, task.job, bytes.clone())).0 += 1;
                                }
                            }
                            match &e {
                                End::Ok => {
                                    jr.paths += 1;
                                    jr.covers.extend(st.covers.iter().copied());
                                    npaths.fetch_add(1, Relaxed);
                                    // a spread of explored paths of each job is replayed natively afterwards
                                    let n = job_paths[task.job as usize].fetch_add(1, Relaxed);
                                    if n < sample / 2 || (n % 211 == 0 && n / 211 < sample / 2) {
                                        let d = m.digest(&st);
                                        out.lock().unwrap().samples.push((task.job, bytes, d, 0));
                                    }
                                }
                                End::Pruned => jr.pruned += 1,
                                End::Unsupported(s) => {
                                    let s = format!("{} @ {}", s, m.backtrace);
                                    let mut o = out.lock().unwrap();
                                    let c = o.unsupported.entry(s.clone()).or_insert(0);
                                    *c += 1;
                                    if *c <= 2 && o.unsupported_at.len() < 60 {
                                        o.unsupported_at.push(Finding { job: task.job, kind: "unsupported", code: 0, msg: s, bytes });
                                    }
                                }
                                End::Fail(_) | End::Panic(_) | End::Hang => {
                                    jr.paths += 1;
                                    jr.viol += 1;
                                    let (kind, code, msg) = match &e {
                                        End::Fail(c) => ("fail", *c, String::new()),
                                        End::Panic(s) => ("panic", 0, format!("{} @ {}", s, m.backtrace)),
                                        _ => ("hang", 0, format!("instruction budget exhausted @ {}", m.backtrace)),
                                    };
                                    let mut o = out.lock().unwrap();
                                    let key = (task.job, format!("{}{}{}", kind, code, msg));
                                    let c = o.per_key.entry(key).or_insert(0);
                                    *c += 1;
                                    if *c <= 4 && o.findings.len() < 4000 {
                                        o.findings.push(Finding { job: task.job, kind, code, msg, bytes });
                                    }
                                    if nviol.fetch_add(1, SeqCst) + 1 >= stop_after {
                                        stopped.store(true, SeqCst);
                                    }
                                }
                            }
                            // share work
                            if m.pending.len() > 1 && idle.load(Relaxed) > 0 {
                                let k = (m.pending.len() / 2).clamp(1, 4);
                                let give: Vec<_> = m.pending.drain(..k).collect();
                                let mut q = queue.lock().unwrap();
                                for mut s in give {
                                    let mut forced = std::mem::take(&mut s.trace);
                                    forced.extend(s.forced_iter());
                                    q.push(Task { job: task.job, forced, model: s.model });
                                }
                                drop(q);
                                cv.notify_all();
                            }
                            if m.ar.n.len() > 8_000_000 && !m.pending.is_empty() {
                                // give everything away and restart with an empty arena
                                let mut q = queue.lock().unwrap();
                                for mut s in m.pending.drain(..) {
                                    let mut forced = std::mem::take(&mut s.trace);
                                    forced.extend(s.forced_iter());
                                    q.push(Task { job: task.job, forced, model: s.model });
                                }
                            }
                        }
                        jr.last = t1.elapsed().as_secs_f64();
                        local.push((task.job, jr));
                    }
                    let mut o = out.lock().unwrap();
                    for (j, r) in local {
                        let e = o.jobs.entry(j).or_default();
                        e.paths += r.paths;
                        e.pruned += r.pruned;
                        e.steps += r.steps;
                        e.viol += r.viol;
                        e.cut |= r.cut;
                        e.last = e.last.max(r.last);
                        e.covers.extend(r.covers);
                    }
                    o.forks += m.forks;
                    for (i, s) in m.fn_seen.iter().enumerate() {
                        o.fn_seen[i] |= *s;
                        for (k, b) in m.blk_seen[i].iter().enumerate() {
                            o.blk[i][k] |= b;
                        }
                    }
                })
                .unwrap();
        }
    });

    let o = out.into_inner().unwrap();
    let wall = t1.elapsed().as_secs_f64();
    let mut s = String::new();
    let tot = |f: &dyn Fn(&JobRes) -> u64| o.jobs.values().map(f).sum::<u64>();
    let _ = write!(s, "{{\"load_s\":{:.3},\"wall_s\":{:.3},\"paths\":{},\"pruned\":{},\"forks\":{},\"steps\":{},", load_s, wall, tot(&|j| j.paths), tot(&|j| j.pruned), o.forks, tot(&|j| j.steps));
    let _ = write!(s, "\"queries_z3\":{},\"queries_cached\":{},\"queries_unsat\":{},\"queries_unknown\":{},\"solver_s\":{:.3},", sh.q_z3.load(Relaxed), sh.q_hit.load(Relaxed), sh.q_unsat.load(Relaxed), sh.q_unknown.load(Relaxed), sh.ns.load(Relaxed) as f64 / 1e9);
    let _ = write!(s, "\"timed_out\":{},\"stopped\":{},\"inconclusive\":{},", timed_out.load(SeqCst), stopped.load(SeqCst), o.inconclusive);
    s.push_str("\"jobs\":{");
    for (i, (j, r)) in o.jobs.iter().enumerate() {
        let _ = write!(s, "{}\"{}\":{{\"paths\":{},\"pruned\":{},\"steps\":{},\"viol\":{},\"cut\":{},\"done_at\":{:.2},\"covers\":{:?}}}", if i > 0 { "," } else { "" }, j, r.paths, r.pruned, r.steps, r.viol, r.cut, r.last, r.covers.iter().collect::<Vec<_>>());
    }
    for (key, list) in [("},\"findings\":[", &o.findings), ("],\"unsupported_at\":[", &o.unsupported_at)] {
        s.push_str(key);
        for (i, f) in list.iter().enumerate() {
            let _ = write!(s, "{}{{\"job\":{},\"kind\":\"{}\",\"code\":{},\"msg\":{},\"bytes\":\"{}\"}}", if i > 0 { "," } else { "" }, f.job, f.kind, f.code, js(&f.msg), hex(&f.bytes));
        }
    }
    s.push_str("],\"knowns\":{");
    for (i, (k, (n, j, b))) in o.knowns.iter().enumerate() {
        let _ = write!(s, "{}\"{}\":{{\"count\":{},\"job\":{},\"bytes\":\"{}\"}}", if i > 0 { "," } else { "" }, k, n, j, hex(b));
    }
    s.push_str("},\"samples\":[");
    for (i, (j, b, d, _)) in o.samples.iter().enumerate() {
        let _ = write!(s, "{}{{\"job\":{},\"bytes\":\"{}\",\"digest\":\"{:016x}\"}}", if i > 0 { "," } else { "" }, j, hex(b), d);
    }
    s.push_str("],\"unsupported\":{");
    for (i, (k, n)) in o.unsupported.iter().enumerate() {
        let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, js(k), n);
    }
    s.push_str("},\"functions\":[");
    let mut first = true;
    for (i, f) in module.funcs.iter().enumerate() {
        if o.fn_seen[i] && f.defined {
            let hit: u32 = o.blk[i].iter().map(|b| b.count_ones()).sum();
            let _ = write!(s, "{}[{},{},{}]", if first { "" } else { "," }, js(&f.pretty), hit, f.code.len());
            first = false;
        }
    }
    s.push_str("]}");
    match get("--out") {
        Some(p) => std::fs::write(p, &s).unwrap(),
        None => println!("{}", s),
    }
    if let Some(p) = get("--dump-to") {
        let d = sh.dump.lock().unwrap();
        let mut t = String::new();
        for (q, sat) in d.iter() {
            let _ = write!(t, ";;EXPECT {}\n{}\n;;END\n", if *sat { "sat" } else { "unsat" }, q);
        }
        std::fs::write(p, t).unwrap();
    }
    if verbose {
        eprintln!("load {:.2}s wall {:.2}s paths {} pruned {} forks {} steps {} z3 {} cached {} solver {:.2}s findings {} unsup {:?} timed_out {} covers {:?} knowns {:?}", load_s, wall, tot(&|j| j.paths), tot(&|j| j.pruned), o.forks, tot(&|j| j.steps), sh.q_z3.load(Relaxed), sh.q_hit.load(Relaxed), sh.ns.load(Relaxed) as f64 / 1e9, o.findings.len(), o.unsupported, timed_out.load(SeqCst), o.jobs.values().flat_map(|j| j.covers.iter()).collect::<BTreeSet<_>>(), o.knowns.keys().collect::<Vec<_>>());
        for f in o.findings.iter().take(20) {
            eprintln!("  job {} {} {} {} {:?} {}", f.job, f.kind, f.code, f.msg, String::from_utf8_lossy(&f.bytes), hex(&f.bytes));
        }
    }
}
