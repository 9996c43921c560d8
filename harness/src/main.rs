//! Driver: runs the checks, isolates crashes, shrinks, writes replays and evidence.
//!
//!   rxprop check ID            (VERIF_SEED, VERIF_TIER, RXPROP_OUT)
//!   rxprop replay FILE
//!   rxprop list

use rxprop::engine::*;
use rxprop::guided::{self, Corpus, Entry, Rng, Slot};
use rxprop::props_sys::limit_cpu;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

const THREADS: usize = 8;
const STACK: usize = 2 << 20;
/// a chunk of cases that makes no progress for so long is looked at
const STALL: Duration = Duration::from_secs(150);
/// CPU seconds after which a single case counts as not ending
const HANG_CPU: u64 = 40;

/// a chunk that still makes calls is looked at only after so long
const STALL_BUSY: Duration = Duration::from_secs(420);

/// Ends this process by SIGXCPU after `secs` of CPU time if by then one call of
/// the code under test has been running for long; one that goes on making calls
/// has four times as long.
fn watch_cpu(secs: u64) {
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
        fn kill(pid: i32, sig: i32) -> i32;
    }
    limit_cpu(4 * secs);
    std::thread::spawn(move || {
        let (mut last, mut at) = (0, 0.0);
        loop {
            std::thread::sleep(Duration::from_millis(20));
            let mut t = [0i64; 2];
            // CLOCK_PROCESS_CPUTIME_ID
            unsafe { clock_gettime(2, &mut t) };
            let cpu = t[0] as f64 + t[1] as f64 / 1e9;
            let calls: u64 = CALLS.iter().map(|c| c.load(Relaxed)).sum();
            if calls != last {
                (last, at) = (calls, cpu);
            }
            if cpu >= secs as f64 && cpu - at >= 5f64.min(secs as f64 / 2.0) {
                unsafe { kill(std::process::id() as i32, 24) };
            }
        }
    });
}

fn out_dir() -> PathBuf {
    PathBuf::from(std::env::var("RXPROP_OUT").unwrap_or_else(|_| "/verif".into()))
}
fn prop(id: &str) -> Prop {
    match rxprop::all_props().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {}", id);
            std::process::exit(2)
        }
    }
}
fn tier() -> String {
    let t = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    if t == "thorough" {
        t
    } else {
        "quick".into()
    }
}
fn seed() -> u64 {
    let s = std::env::var("VERIF_SEED").unwrap_or_else(|_| "1".into());
    s.trim().parse::<u64>().unwrap_or_else(|_| hash64(s.as_bytes()))
}
fn cases(s: &Sub, tier: &str) -> u64 {
    let n = if tier == "thorough" { s.thorough } else { s.quick };
    // for development only; the evidence reports the number of cases run
    match std::env::var("RXPROP_SCALE").ok().and_then(|x| x.parse::<f64>().ok()) {
        Some(f) if !s.exhaustive => ((n as f64 * f) as u64).max(1),
        _ => n,
    }
}
fn src_for(p: &str, s: &Sub, seed: u64, idx: u64) -> Src {
    if s.exhaustive {
        Src::replay(vec![idx])
    } else {
        Src::from_seed(case_seed(seed, p, s.name, idx))
    }
}

// ---------------------------------------------------------------- known findings

/// lines `finding: property=ID input=HEX what`
fn findings(id: &str) -> Vec<(String, String)> {
    let t = fs::read_to_string(out_dir().join("known_findings.txt")).unwrap_or_default();
    let mut v = Vec::new();
    for l in t.lines() {
        let mut w = l.splitn(4, ' ');
        if w.next() != Some("finding:") || w.next() != Some(&format!("property={}", id)) {
            continue;
        }
        let input = w.next().unwrap_or("").trim_start_matches("input=").to_string();
        v.push((input, w.next().unwrap_or("").to_string()));
    }
    v
}

// ---------------------------------------------------------------- running cases

#[derive(Default)]
struct Stats {
    cases: u64,
    evals: u64,
    extra: u64,
    seen: HashSet<u64>,
    classes: BTreeMap<(usize, &'static str), u64>,
    samples: Vec<(usize, u64, String)>,
    suppressed: u64,
}

impl Stats {
    fn count(&mut self, si: usize, idx: u64, ctx: &Ctx) {
        self.cases += 1;
        self.evals += ctx.evals.max(1);
        self.extra += ctx.extra_nontrivial;
        for c in &ctx.classes {
            *self.classes.entry((si, c)).or_default() += 1;
        }
        if ctx.nontrivial {
            let new = self.seen.insert(hash64(&ctx.input));
            if new && idx < 4096 && self.samples.len() < 4 {
                let mut d = hex_short(&ctx.input);
                if !ctx.note.is_empty() {
                    d = format!("{} ({})", d, ctx.note);
                }
                self.samples.push((si, idx, d));
            }
        }
    }
    fn add(&mut self, my: Stats) {
        self.cases += my.cases;
        self.evals += my.evals;
        self.extra += my.extra;
        self.suppressed += my.suppressed;
        self.seen.extend(my.seen);
        for (k, v) in my.classes {
            *self.classes.entry(k).or_default() += v;
        }
        self.samples.extend(my.samples);
    }
}

struct Failure {
    guided: bool,
    sub: usize,
    idx: u64,
    choices: Vec<u64>,
    msg: String,
    input: Vec<u8>,
    note: String,
}

/// one progress slot per thread: the sub-check and first case of its chunk
struct Progress(fs::File);
impl Progress {
    fn set(&self, t: usize, sub: u64, from: u64, to: u64, tick: u64) {
        let mut b = [0u8; 32];
        for (i, x) in [sub, from, to, tick].iter().enumerate() {
            b[i * 8..i * 8 + 8].copy_from_slice(&x.to_le_bytes());
        }
        let _ = self.0.write_all_at(&b, t as u64 * 32);
    }
}
fn read_progress(p: &Path) -> Vec<[u64; 4]> {
    fs::read(p)
        .unwrap_or_default()
        .chunks_exact(32)
        .map(|c| {
            let f = |i: usize| u64::from_le_bytes(c[i * 8..i * 8 + 8].try_into().unwrap());
            [f(0), f(1), f(2), f(3)]
        })
        .collect()
}
const IDLE: u64 = u64::MAX;

fn run_sub(p: &Prop, si: usize, n: u64, seed: u64, prog: &Progress, known: &[String], st: &Mutex<Stats>) -> Option<Failure> {
    let sub = &p.subs[si];
    let next = AtomicU64::new(0);
    let min_fail = AtomicU64::new(u64::MAX);
    let fail: Mutex<Option<Failure>> = Mutex::new(None);
    let chunk = (n / 2048).clamp(1, 128);
    std::thread::scope(|sc| {
        for t in 0..THREADS {
            let (next, min_fail, fail) = (&next, &min_fail, &fail);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, move || {
                    set_caller(t + 1);
                    let mut my = Stats::default();
                    let mut tick = 0;
                    'chunks: loop {
                        let from = next.fetch_add(chunk, Relaxed);
                        if from >= n || from > min_fail.load(Relaxed) {
                            break;
                        }
                        let to = (from + chunk).min(n);
                        tick += 1;
                        prog.set(t, si as u64, from, to, tick);
                        for idx in from..to {
                            let mut s = src_for(p.id, sub, seed, idx);
                            let mut ctx = Ctx::default();
                            let r = run_check(sub.f, &mut s, &mut ctx);
                            my.count(si, idx, &ctx);
                            if let Err(msg) = r {
                                if known.contains(&hex(&ctx.input)) {
                                    my.suppressed += 1;
                                    continue;
                                }
                                if min_fail.fetch_min(idx, Relaxed) > idx {
                                    let mut f = fail.lock().unwrap();
                                    if f.as_ref().map_or(true, |f| f.idx > idx) {
                                        *f = Some(Failure { guided: false, sub: si, idx, choices: s.rec.clone(), msg, input: ctx.input, note: ctx.note });
                                    }
                                }
                                continue 'chunks;
                            }
                        }
                    }
                    prog.set(t, IDLE, 0, 0, 0);
                    st.lock().unwrap().add(my);
                })
                .expect("thread");
        }
    });
    fail.into_inner().unwrap()
}

/// number of coverage-guided cases of a sub-check
fn guided_cases(p: &Prop, s: &Sub, tier: &str) -> u64 {
    // not the ones that run the tool, or whose cases are few and large
    let skip = ["deep", "abyss", "big", "many", "threads", "fresh-process", "wide", "vast", "huge", "large", "clock"];
    if std::env::var_os("RXPROP_UNGUIDED").is_some() || s.exhaustive || p.id == "C21" || p.id == "C27" || skip.contains(&s.name) || rxprop::cov::used() <= 1 {
        0
    } else if tier == "thorough" {
        cases(s, tier)
    } else {
        cases(s, tier).div_ceil(2)
    }
}
const ROUND: u64 = 256;
/// guided sub-checks are counted under the index of the sub-check plus this
const GUIDED: usize = 1 << 16;

/// coverage-guided search: rounds of cases on every thread, after each of which
/// the threads take over what the others found, so that the outcome depends on
/// nothing but the code and the seed
fn run_guided(p: &Prop, si: usize, n: u64, seed: u64, prog: &Progress, slots: &fs::File, known: &[String], st: &Mutex<Stats>, limit: Duration) -> (Option<Failure>, u64, usize, usize) {
    let start = Instant::now();
    let sub = &p.subs[si];
    let rounds = n.div_ceil(ROUND * THREADS as u64);
    // work done in all rounds and in the first, where all cases are random: the
    // search takes about as much work as as many random cases
    let work = (AtomicU64::new(0), AtomicU64::new(0));
    let late = AtomicBool::new(false);
    let barrier = Barrier::new(THREADS);
    let found: Mutex<Vec<Vec<Arc<Entry>>>> = Mutex::new(vec![vec![]; THREADS]);
    let fail: Mutex<Option<Failure>> = Mutex::new(None);
    let size = Mutex::new((0, 0));
    let before = st.lock().unwrap().cases;
    std::thread::scope(|sc| {
        for t in 0..THREADS {
            let (barrier, found, fail, size, work, late) = (&barrier, &found, &fail, &size, &work, &late);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, move || {
                    set_caller(t + 1);
                    let mut my = Stats::default();
                    let mut map = rxprop::cov::Map::new();
                    let slot = Slot::new(slots, t);
                    let mut common = Corpus::new();
                    for round in 0..rounds {
                        let mut mine = common.clone();
                        let mut news = Vec::new();
                        let mut spent = 0;
                        prog.set(t, (si + GUIDED) as u64, round, round + 1, 0);
                        for i in 0..ROUND {
                            let idx = (round * ROUND + i) * THREADS as u64 + t as u64;
                            let mut r = Rng(case_seed(seed ^ 0x6775_6964_6564, p.id, sub.name, idx));
                            let choices = if round == 0 { None } else { guided::mutate(&mine, &mut r) };
                            let rest = case_seed(r.0, p.id, sub.name, idx);
                            slot.set(choices.as_deref(), rest);
                            if i % 32 == 31 {
                                prog.set(t, (si + GUIDED) as u64, round, round + 1, i);
                            }
                            let mut s = match choices {
                                Some(c) => Src::guided(c, rest),
                                None => Src::from_seed(rest),
                            };
                            let mut ctx = Ctx::default();
                            let r = rxprop::cov::record(&mut map, || run_check(sub.f, &mut s, &mut ctx));
                            slot.done();
                            let cost = map.work + s.rec.len() as u64;
                            spent += cost;
                            my.count(si + GUIDED, idx, &ctx);
                            if let Err(msg) = r {
                                if known.contains(&hex(&ctx.input)) {
                                    my.suppressed += 1;
                                    continue;
                                }
                                let mut f = fail.lock().unwrap();
                                if f.as_ref().map_or(true, |f| f.idx > idx) {
                                    *f = Some(Failure { guided: true, sub: si, idx, choices: s.rec.clone(), msg, input: ctx.input, note: ctx.note });
                                }
                                break;
                            }
                            if s.rec.len() <= guided::LONGEST {
                                let features = mine.news(&map);
                                if !features.is_empty() {
                                    let e = Arc::new(Entry { choices: std::mem::take(&mut s.rec), features, pairs: map.pairs().to_vec(), cost });
                                    mine.add(e.clone());
                                    news.push(e);
                                }
                            }
                        }
                        prog.set(t, IDLE, 0, 0, 0);
                        found.lock().unwrap()[t] = news;
                        work.0.fetch_add(spent, Relaxed);
                        if round == 0 {
                            work.1.fetch_add(spent, Relaxed);
                        }
                        if t == 0 && start.elapsed() > limit {
                            late.store(true, Relaxed);
                        }
                        barrier.wait();
                        for l in found.lock().unwrap().iter() {
                            for e in l {
                                common.add(e.clone());
                            }
                        }
                        let stop = fail.lock().unwrap().is_some() || work.0.load(Relaxed) > work.1.load(Relaxed) * rounds || late.load(Relaxed);
                        barrier.wait();
                        if stop {
                            break;
                        }
                    }
                    *size.lock().unwrap() = (common.entries.len(), common.count);
                    st.lock().unwrap().add(my);
                })
                .expect("thread");
        }
    });
    let (a, b) = size.into_inner().unwrap();
    let n = st.lock().unwrap().cases - before;
    (fail.into_inner().unwrap(), n, a, b)
}

/// runs one case from choices on a thread with the standard stack
fn run_case(p: &Prop, si: usize, mut s: Src) -> (Res, Vec<u64>, Ctx) {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, || {
                let mut ctx = Ctx::default();
                let r = run_check(p.subs[si].f, &mut s, &mut ctx);
                (r, std::mem::take(&mut s.rec), ctx)
            })
            .expect("thread")
            .join()
            .unwrap_or_else(|_| (Err("the harness panicked".into()), vec![], Ctx::default()))
    })
}

fn join(c: &[u64]) -> String {
    c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn parse_choices(s: &str) -> Vec<u64> {
    s.trim().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("choice")).collect()
}

// ---------------------------------------------------------------- worker

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn sub_name(p: &Prop, si: usize) -> String {
    format!("{}{}", p.subs[si % GUIDED].name, if si >= GUIDED { " (coverage-guided)" } else { "" })
}
fn slots_file(dir: &Path) -> fs::File {
    let f = fs::OpenOptions::new().read(true).write(true).create(true).open(dir.join("slots")).expect("slots file");
    f.set_len(guided::slots_size(THREADS)).expect("slots file");
    f
}

/// exit 0: all held; 1: a failure was written to DIR/failure; 2: harness error
fn worker(id: &str, dir: &Path) -> i32 {
    install_panic_hook();
    let p = prop(id);
    let (tier, seed) = (tier(), seed());
    let known: Vec<String> = findings(id).into_iter().map(|x| x.0).collect();
    let prog = Progress(fs::File::create(dir.join("progress")).expect("progress file"));
    let calls = fs::File::create(dir.join("calls")).expect("calls file");
    std::thread::spawn(move || loop {
        let b: Vec<u8> = CALLS.iter().flat_map(|c| c.load(Relaxed).to_le_bytes()).collect();
        let _ = calls.write_all_at(&b, 0);
        std::thread::sleep(Duration::from_secs(2));
    });
    let slots = slots_file(dir);
    let st = Mutex::new(Stats::default());
    let mut failure = None;
    let mut ran: Vec<(usize, u64, f64)> = Vec::new();
    let mut sizes: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
    for si in 0..p.subs.len() {
        if let Ok(only) = std::env::var("RXPROP_SUB") {
            if p.subs[si].name != only {
                continue;
            }
        }
        let n = cases(&p.subs[si], &tier);
        let t = Instant::now();
        failure = run_sub(&p, si, n, seed, &prog, &known, &st);
        ran.push((si, n, t.elapsed().as_secs_f64()));
        if std::env::var_os("RXPROP_VERBOSE").is_some() {
            eprintln!("{} {}: {} cases, {:.1} s", id, p.subs[si].name, n, t.elapsed().as_secs_f64());
        }
        if failure.is_some() {
            break;
        }
        let n = guided_cases(&p, &p.subs[si], &tier);
        if n > 0 {
            // the search is as long as the random one, or half as long, in work; in time
            // it may take more
            let limit = Duration::from_secs(10) + t.elapsed();
            let t = Instant::now();
            let (f, n, entries, features) = run_guided(&p, si, n, seed, &prog, &slots, &known, &st, limit);
            failure = f;
            ran.push((si + GUIDED, n, t.elapsed().as_secs_f64()));
            sizes.insert(si, (entries, features));
            if std::env::var_os("RXPROP_VERBOSE").is_some() {
                eprintln!("{} {} guided: {} cases, {:.1} s, {} kept, {} features", id, p.subs[si].name, n, t.elapsed().as_secs_f64(), entries, features);
            }
            if failure.is_some() {
                break;
            }
        }
    }
    // coverage part of the evidence
    let mut g = st.into_inner().unwrap();
    g.samples.sort();
    let mut samples = Vec::new();
    for (si, _, _) in &ran {
        for s in g.samples.iter().filter(|s| s.0 == *si).take(2) {
            samples.push(format!("{{\"sub\":{},\"index\":{},\"input\":{}}}", jstr(&sub_name(&p, *si)), s.1, jstr(&s.2)));
        }
    }
    let subs: Vec<String> = ran
        .iter()
        .map(|(si, n, t)| {
            let cl: Vec<String> =
                g.classes.iter().filter(|x| x.0 .0 == *si).map(|x| format!("{}:{}", jstr(x.0 .1), x.1)).collect();
            format!(
                "{{\"name\":{},\"cases\":{},\"enumerated\":{},\"wall_s\":{:.2},{}\"classes\":{{{}}}}}",
                jstr(&sub_name(&p, *si)),
                n,
                p.subs[*si % GUIDED].exhaustive,
                t,
                match sizes.get(&si.wrapping_sub(GUIDED)) {
                    Some((e, f)) => format!("\"corpus\":{},\"features\":{},", e, f),
                    None => String::new(),
                },
                cl.join(",")
            )
        })
        .collect();
    let cov = format!(
        "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"cases\":{},\"suppressed_known_findings\":{},\"sub_checks\":[{}],\"samples\":[{}]}}",
        g.evals,
        g.seen.len() as u64 + g.extra,
        jstr(p.rule),
        g.cases,
        g.suppressed,
        subs.join(","),
        samples.join(",")
    );
    fs::write(dir.join("coverage"), cov).expect("coverage file");
    match failure {
        None => 0,
        Some(f) => {
            write_failure(&dir.join("failure"), &p, &f);
            // shrink here; if that kills the process the unshrunk failure stands
            let t0 = Instant::now();
            let mut last = None;
            let small = shrink(f.choices.clone(), 4000, |c| {
                if t0.elapsed() > Duration::from_secs(40) {
                    return None;
                }
                // the first choice of an enumerating check is its index: keep it
                let (r, rec, ctx) = run_case(&p, f.sub, Src::replay(c.to_vec()));
                match r {
                    Err(m) if !known.contains(&hex(&ctx.input)) => {
                        last = Some((rec.clone(), m, ctx.input, ctx.note));
                        Some(rec)
                    }
                    _ => None,
                }
            });
            let (r, rec, ctx) = run_case(&p, f.sub, Src::replay(small));
            if let Err(msg) = r {
                let g = Failure { guided: f.guided, sub: f.sub, idx: f.idx, choices: rec, msg, input: ctx.input, note: ctx.note };
                write_failure(&dir.join("shrunk"), &p, &g);
            } else if let Some((rec, msg, input, note)) = last {
                let g = Failure { guided: f.guided, sub: f.sub, idx: f.idx, choices: rec, msg, input, note };
                write_failure(&dir.join("shrunk"), &p, &g);
            }
            1
        }
    }
}

fn write_failure(path: &Path, p: &Prop, f: &Failure) {
    let t = format!(
        "property={}\nsub={}\nguided={}\nseed={}\ntier={}\nindex={}\nchoices={}\nmessage={}\ninput={}\nnote={}\n",
        p.id,
        p.subs[f.sub].name,
        f.guided as u32,
        seed(),
        tier(),
        f.idx,
        join(&f.choices),
        f.msg.replace('\n', "\\n"),
        hex(&f.input),
        f.note.replace('\n', "\\n"),
    );
    fs::write(path, t).expect("failure file");
}
fn read_fields(path: &Path) -> Option<BTreeMap<String, String>> {
    let t = fs::read_to_string(path).ok()?;
    Some(t.lines().filter_map(|l| l.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect())
}

// ---------------------------------------------------------------- child runs (crash isolation)

enum Child {
    Pass,
    Fail,
    Died(String),
    /// ended for a reason that says nothing about the code (killed from outside, harness error)
    #[allow(dead_code)]
    Unclear(String),
}
fn me() -> Command {
    let mut c = Command::new(std::env::current_exe().expect("own path"));
    c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    c
}
fn status(s: std::process::ExitStatus) -> Child {
    match (s.code(), s.signal()) {
        (Some(0), _) => Child::Pass,
        (Some(1), _) => Child::Fail,
        (_, Some(24)) => Child::Died("it does not end within its CPU time limit".into()),
        (_, Some(sig @ (4 | 6 | 7 | 8 | 11))) => Child::Died(format!("the process dies by signal {} (stack overflow, abort or runaway allocation)", sig)),
        (c, s) => Child::Unclear(format!("exit {:?} signal {:?}", c, s)),
    }
}
/// `rxprop case ID SUB cpu file`: the choices in `file`
fn child_case(id: &str, sub: &str, cpu: u64, dir: &Path, choices: &[u64]) -> Child {
    let f = dir.join("choices");
    fs::write(&f, join(choices)).expect("choices file");
    status(me().args(["case", id, sub, &cpu.to_string()]).arg(&f).status().expect("child"))
}
/// `rxprop range ID SUB cpu from to dump`: cases by index; the dump gets the
/// index, then the choices of the case being run
fn child_range(id: &str, sub: &str, cpu: u64, dir: &Path, from: u64, to: u64) -> (Child, Option<(u64, Vec<u64>)>) {
    let f = dir.join("dump");
    let _ = fs::remove_file(&f);
    let st = me()
        .args(["range", id, sub, &cpu.to_string(), &from.to_string(), &to.to_string()])
        .arg(&f)
        .status()
        .expect("child");
    let d = fs::read(&f).unwrap_or_default();
    let v: Vec<u64> = d.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    (status(st), v.split_first().map(|(a, b)| (*a, b.to_vec())))
}
/// `rxprop gcase ID SUB cpu slots thread dump`: the coverage-guided case that the
/// thread was running; the dump gets its choices
fn child_gcase(id: &str, sub: &str, cpu: u64, dir: &Path, slots: &Path, t: usize) -> (Child, Vec<u64>) {
    let f = dir.join("dump");
    let _ = fs::remove_file(&f);
    let st = me().args(["gcase", id, sub, &cpu.to_string()]).arg(slots).arg(t.to_string()).arg(&f).status().expect("child");
    let d = fs::read(&f).unwrap_or_default();
    (status(st), d.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
}
fn sub_index(p: &Prop, name: &str) -> usize {
    p.subs.iter().position(|s| s.name == name).unwrap_or_else(|| {
        eprintln!("no such sub-check: {}", name);
        std::process::exit(2)
    })
}

// ---------------------------------------------------------------- check

struct Report {
    sub: String,
    idx: u64,
    choices: Vec<u64>,
    msg: String,
    input: String,
    note: String,
    /// replays only as the whole run of cases 0..=idx
    whole: bool,
    /// found by the coverage-guided search
    guided: bool,
}

/// the thread has begun no call of the code under test for a while
fn quiet(beat: &mut Vec<(u64, Instant)>, dir: &Path, t: usize) -> bool {
    let b = fs::read(dir.join("calls")).unwrap_or_default();
    let n = b.chunks_exact(8).nth(t + 1).map_or(0, |c| u64::from_le_bytes(c.try_into().unwrap()));
    beat.resize(beat.len().max(t + 1), (u64::MAX, Instant::now()));
    if beat[t].0 != n {
        beat[t] = (n, Instant::now());
    }
    beat[t].1.elapsed() > Duration::from_secs(20)
}
/// the worker died or hung: find the case and shrink it in child processes
fn locate(p: &Prop, dir: &Path, hung: bool) -> Result<Report, String> {
    let slots = read_progress(&dir.join("progress"));
    let mut cand: Vec<([u64; 4], usize)> =
        slots.into_iter().zip(0..).filter(|(s, _)| s[0] != IDLE && s[2] > s[1]).collect();
    cand.sort();
    for (c, t) in &cand {
        let sub = &p.subs[c[0] as usize % GUIDED];
        let cpu = if hung { HANG_CPU + 60 } else { 600 };
        let (r, at) = if c[0] as usize >= GUIDED {
            let (r, d) = child_gcase(p.id, sub.name, cpu, dir, &dir.join("slots"), *t);
            (r, Some((c[1], d)))
        } else {
            child_range(p.id, sub.name, cpu, dir, c[1], c[2])
        };
        let why = match r {
            Child::Died(w) => w,
            _ => continue,
        };
        let (idx, choices) = at.ok_or("no trace of the case that died")?;
        let slow = why.contains("CPU");
        let limit = if slow { HANG_CPU } else { 300 };
        let why = match child_case(p.id, sub.name, limit, dir, &choices) {
            Child::Died(w) => w,
            _ => continue,
        };
        // shrink; a hanging case is shrunk with a short limit and confirmed with the long one
        let t0 = Instant::now();
        let try_limit = if slow { 4 } else { 300 };
        let small = shrink(choices.clone(), if slow { 40 } else { 400 }, |x| {
            if t0.elapsed() > Duration::from_secs(150) {
                return None;
            }
            match child_case(p.id, sub.name, try_limit, dir, x) {
                Child::Died(_) => Some(x.to_vec()),
                _ => None,
            }
        });
        let small = match child_case(p.id, sub.name, limit, dir, &small) {
            Child::Died(_) => small,
            _ => choices,
        };
        return Ok(Report { sub: sub.name.into(), idx, choices: small, msg: why, input: String::new(), note: String::new(), whole: false, guided: c[0] as usize >= GUIDED });
    }
    Err(format!("none of the cases in progress ({:?}) does it again", cand))
}

fn check(id: &str) -> i32 {
    let t0 = Instant::now();
    let p = prop(id);
    let base = std::env::var_os("RXPROP_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
    let dir = base.join(format!("rxprop-check-{}-{}", id, std::process::id()));
    fs::create_dir_all(&dir).expect("scratch directory");
    // all processes of this run use the same dictionary
    let words = dir.join("literals");
    fs::write(&words, rxprop::mine::current()).expect("literals file");
    std::env::set_var("RXPROP_LITERALS", &words);
    let r = check_in(&p, &dir, t0);
    let _ = fs::remove_dir_all(&dir);
    r
}

fn check_in(p: &Prop, dir: &Path, t0: Instant) -> i32 {
    let mut child = Command::new(std::env::current_exe().expect("own path"))
        .args(["worker", p.id])
        .arg(dir)
        .env("RXPROP_SCRATCH", dir)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(if std::env::var_os("RXPROP_VERBOSE").is_some() { Stdio::inherit() } else { Stdio::from(fs::File::create(dir.join("stderr")).expect("stderr")) })
        .spawn()
        .expect("worker");
    std::env::set_var("RXPROP_SCRATCH", dir);
    let mut last: Vec<([u64; 4], Instant)> = Vec::new();
    let mut beat: Vec<(u64, Instant)> = Vec::new();
    let mut hung = false;
    let st = loop {
        if let Some(s) = child.try_wait().expect("wait") {
            break s;
        }
        std::thread::sleep(Duration::from_millis(20));
        let now = read_progress(&dir.join("progress"));
        last.resize(now.len().max(last.len()), ([IDLE; 4], Instant::now()));
        for (i, s) in now.iter().enumerate() {
            if last[i].0 != *s || s[0] == IDLE {
                last[i] = (*s, Instant::now());
            } else if last[i].1.elapsed() > STALL && (quiet(&mut beat, dir, i) || last[i].1.elapsed() > STALL_BUSY) && !dir.join("failure").exists() {
                hung = true;
            }
        }
        if hung {
            let _ = child.kill();
            break child.wait().expect("wait");
        }
    };
    let worker_err = fs::read_to_string(dir.join("stderr")).unwrap_or_default();
    let found = match (hung, st.code()) {
        (false, Some(0)) => None,
        _ if dir.join("failure").exists() => {
            let raw = read_fields(&dir.join("failure")).expect("failure file");
            let f = read_fields(&dir.join("shrunk")).unwrap_or_else(|| raw.clone());
            let idx: u64 = f["index"].parse().unwrap_or(0);
            // must fail again by itself in a process of its own
            let choices = parse_choices(&f["choices"]);
            let rawc = parse_choices(&raw["choices"]);
            let again = |c: &[u64]| matches!(child_case(p.id, &f["sub"], 300, dir, c), Child::Fail | Child::Died(_));
            let (choices, f, whole) = if again(&choices) {
                (choices, f, false)
            } else if again(&rawc) {
                (rawc, raw, false)
            } else {
                (rawc, raw, true)
            };
            Some(Report {
                sub: f["sub"].clone(),
                idx,
                choices,
                msg: f["message"].clone(),
                input: f["input"].clone(),
                note: f["note"].clone(),
                whole,
                guided: f["guided"] == "1",
            })
        }
        (h, code) => {
            let s = status(st);
            if !h && !matches!(s, Child::Died(_)) {
                eprintln!("check error: worker ended with {:?} signal {:?}\n{}", code, st.signal(), worker_err);
                return 2;
            }
            match locate(p, dir, h) {
                Ok(r) => Some(r),
                Err(e) => {
                    eprintln!("check error: worker {}: {}\n{}", if h { "made no progress" } else { "died" }, e, worker_err);
                    return 2;
                }
            }
        }
    };
    let cov = fs::read_to_string(dir.join("coverage")).unwrap_or_else(|_| {
        format!("{{\"evaluations\":0,\"distinct_nontrivial\":0,\"rule\":{},\"samples\":[]}}", jstr(p.rule))
    });
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        jstr(p.id),
        jstr(&tier()),
        seed() & 0x7FFF_FFFF_FFFF_FFFF,
        cov,
        p.assumptions.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64(),
        found.is_some() as u32
    );
    fs::create_dir_all(out_dir().join("evidence")).expect("evidence directory");
    fs::write(out_dir().join("evidence").join(format!("{}.json", p.id)), ev).expect("evidence file");
    for (_, what) in findings(p.id) {
        println!("KNOWN-FINDING: property={} {}", p.id, what);
    }
    match found {
        None => {
            println!("property {} held on everything explored ({:.1} s)", p.id, t0.elapsed().as_secs_f64());
            0
        }
        Some(r) => {
            let rd = out_dir().join("replays");
            fs::create_dir_all(&rd).expect("replays directory");
            let path = rd.join(format!("{}-{}-{:08x}.replay", p.id, r.sub, hash64(join(&r.choices).as_bytes()) as u32));
            let t = format!(
                "property={}\nsub={}\nmode={}\nseed={}\ntier={}\nindex={}\nchoices={}\nmessage={}\ninput={}\nnote={}\nliterals={}\n# run again: /verif/check.sh replay {}\n",
                p.id,
                r.sub,
                match (r.whole, r.guided) {
                    (false, _) => "choices",
                    (true, false) => "whole",
                    (true, true) => "whole-guided",
                },
                seed(),
                tier(),
                r.idx,
                join(&r.choices),
                r.msg,
                r.input,
                r.note,
                rxprop::mine::current(),
                path.display()
            );
            fs::write(&path, t).expect("replay file");
            println!("{} / {}: {}", p.id, r.sub, r.msg);
            if r.whole {
                println!("(only after the other cases of the run: the code keeps state)");
            }
            if !r.input.is_empty() {
                println!("input: {}", r.input.chars().take(400).collect::<String>());
            }
            println!("VIOLATION property={} replay={}", p.id, path.display());
            1
        }
    }
}

fn replay(file: &str) -> i32 {
    install_panic_hook();
    let f = match read_fields(Path::new(file)) {
        Some(f) => f,
        None => {
            eprintln!("cannot read {}", file);
            return 2;
        }
    };
    if let Some(l) = f.get("literals") {
        rxprop::mine::set(l);
    }
    let p = prop(&f["property"]);
    let si = sub_index(&p, &f["sub"]);
    if f.get("mode").map(|m| m == "whole").unwrap_or(false) {
        let seed: u64 = f["seed"].parse().unwrap_or(1);
        let idx: u64 = f["index"].parse().unwrap_or(0);
        for i in 0..=idx {
            let (r, _, _) = run_case(&p, si, src_for(p.id, &p.subs[si], seed, i));
            if let Err(m) = r {
                println!("case {}: {}", i, m);
                println!("VIOLATION property={} replay={}", p.id, file);
                return 1;
            }
        }
        println!("property {} held on cases 0..={}", p.id, idx);
        return 0;
    }
    if f.get("mode").map(|m| m == "whole-guided").unwrap_or(false) {
        let dir = std::env::temp_dir().join(format!("rxprop-replay-{}", std::process::id()));
        fs::create_dir_all(&dir).expect("scratch directory");
        let prog = Progress(fs::File::create(dir.join("progress")).expect("progress file"));
        let seed: u64 = f["seed"].parse().unwrap_or(1);
        let n = guided_cases(&p, &p.subs[si], &f["tier"]);
        let st = Mutex::new(Stats::default());
        // the cases before the coverage-guided ones count, too
        let before = run_sub(&p, si, cases(&p.subs[si], &f["tier"]), seed, &prog, &[], &st);
        let r = before.or_else(|| run_guided(&p, si, n, seed, &prog, &slots_file(&dir), &[], &st, Duration::from_secs(3600)).0);
        let _ = fs::remove_dir_all(&dir);
        if let Some(x) = r {
            println!("case {}: {}", x.idx, x.msg);
            println!("VIOLATION property={} replay={}", p.id, file);
            return 1;
        }
        println!("property {} held on all cases", p.id);
        return 0;
    }
    let (r, _, ctx) = run_case(&p, si, Src::replay(parse_choices(&f["choices"])));
    println!("input: {}", hex_short(&ctx.input));
    match r {
        Ok(()) => {
            println!("property {} held on this case", p.id);
            0
        }
        Err(m) => {
            println!("{}", m);
            println!("VIOLATION property={} replay={}", p.id, file);
            1
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("worker") => worker(&a[2], Path::new(&a[3])),
        Some("replay") => replay(&a[2]),
        Some("console") => rxprop::props_con::console_main(&a[2]),
        Some("fp") => rxprop::props_sys::fp_main(&a[2]),
        Some("case") => {
            install_panic_hook();
            let p = prop(&a[2]);
            let si = sub_index(&p, &a[3]);
            watch_cpu(a[4].parse().expect("cpu"));
            let c = parse_choices(&fs::read_to_string(&a[5]).expect("choices"));
            run_case(&p, si, Src::replay(c)).0.is_err() as i32
        }
        Some("gcase") => {
            install_panic_hook();
            let p = prop(&a[2]);
            let si = sub_index(&p, &a[3]);
            watch_cpu(a[4].parse().expect("cpu"));
            let t: usize = a[6].parse().expect("thread");
            match guided::running(&fs::read(&a[5]).expect("slots")).swap_remove(t) {
                Some((c, rest)) => {
                    let mut s = if c.is_empty() { Src::from_seed(rest) } else { Src::guided(c, rest) };
                    s.dump = Some(fs::File::create(&a[7]).expect("dump"));
                    run_case(&p, si, s).0.is_err() as i32
                }
                None => 2,
            }
        }
        Some("range") => {
            install_panic_hook();
            let p = prop(&a[2]);
            let si = sub_index(&p, &a[3]);
            watch_cpu(a[4].parse().expect("cpu"));
            let (from, to): (u64, u64) = (a[5].parse().expect("from"), a[6].parse().expect("to"));
            let mut bad = 0;
            for i in from..to {
                let f = fs::File::create(&a[7]).expect("dump");
                use std::io::Write;
                (&f).write_all(&i.to_le_bytes()).expect("dump");
                let mut s = src_for(p.id, &p.subs[si], seed(), i);
                s.dump = Some(f);
                if run_case(&p, si, s).0.is_err() {
                    bad = 1;
                }
            }
            bad
        }
        Some("literals") => {
            println!("{}", rxprop::mine::scan().join("\n"));
            0
        }
        Some("list") => {
            for p in rxprop::all_props() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: rxprop check ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
