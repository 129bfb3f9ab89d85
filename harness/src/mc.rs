//! The exploration engine: parallel exhaustive enumeration of numbered finite
//! families, explicit-state breadth-first search, evidence and replay files.
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::hash::Hash;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

/// Per-thread account of one exploration.
#[derive(Default)]
pub struct Ctx {
    pub transitions: u64,
    pub skipped: bool,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub note: Option<String>,
    want_note: bool,
}
impl Ctx {
    /// count n calls into the implementation whose answers are compared with the model
    #[inline]
    pub fn t(&mut self, n: u64) { self.transitions += n; }
    /// record which outcome class this case fell into
    #[inline]
    pub fn out(&mut self, s: &'static str) { *self.outcomes.entry(s).or_insert(0) += 1; }
    /// the configuration lies outside the property's domain
    #[inline]
    pub fn skip(&mut self) -> Res { self.skipped = true; Ok(()) }
    /// describe this case for the evidence file (only evaluated for sampled cases)
    pub fn note(&mut self, f: impl FnOnce() -> String) { if self.want_note { self.note = Some(f()); } }
}

/// mixed-radix decoder of a case number
pub struct Dec(pub u64);
impl Dec {
    #[inline]
    pub fn take(&mut self, n: usize) -> usize { let r = self.0 % n as u64; self.0 /= n as u64; r as usize }
    #[inline]
    pub fn of<'a, T>(&mut self, s: &'a [T]) -> &'a T { let k = self.take(s.len()); &s[k] }
    #[inline]
    pub fn bit(&mut self) -> bool { self.take(2) == 1 }
}
pub fn pow(b: usize, e: usize) -> u64 { (b as u64).checked_pow(e as u32).expect("family too large") }

/// Number of all sequences over k symbols with length lo..=hi.
pub fn seqs(k: usize, lo: usize, hi: usize) -> u64 { (lo..=hi).map(|l| pow(k, l)).sum() }
/// The i-th such sequence, shortest first; the remaining number is returned in the decoder.
pub fn seq(d: &mut Dec, k: usize, lo: usize, hi: usize) -> Vec<usize> {
    let tot = seqs(k, lo, hi);
    let mut i = d.0 % tot;
    d.0 /= tot;
    let mut l = lo;
    while i >= pow(k, l) { i -= pow(k, l); l += 1; }
    let mut e = Dec(i);
    (0..l).map(|_| e.take(k)).collect()
}

/// The i-th permutation of 0..n
pub fn perm(d: &mut Dec, n: usize) -> Vec<usize> {
    let mut rest: Vec<usize> = (0..n).collect();
    (0..n).map(|k| { let j = d.take(n - k); rest.remove(j) }).collect()
}
pub fn fact(n: usize) -> u64 { (1..=n as u64).product() }

thread_local! {
    static CUR: Cell<u64> = const { Cell::new(u64::MAX) };
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Run f, turning a panic of the implementation into an Err.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panic: {}", PANIC.with(|p| p.borrow().clone())))
}

pub struct Check {
    pub property: &'static str,
    pub thorough: bool,
    pub seed: i64,
    start: Instant,
    replay: Option<(String, u64)>,
    known: Vec<String>,
    families: Vec<(String, u64, u64, u64, u64)>, // name, states, transitions, traces, skipped
    outcomes: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    violation: Option<String>,
    known_hit: Vec<String>,
    threads: usize,
    assumptions: Vec<String>,
    bounds: Vec<String>,
}

fn verif_dir() -> String { std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()) }

static BEAT: [AtomicU64; 64] = [const { AtomicU64::new(u64::MAX) }; 64];

impl Check {
    pub fn new(property: &'static str) -> Check {
        let args: Vec<String> = std::env::args().collect();
        let mut replay = None;
        if args.len() >= 3 && args[1] == "replay" {
            // either "family#index" or a replay file whose first line holds it
            let spec = std::fs::read_to_string(&args[2]).unwrap_or(args[2].clone());
            let spec = spec.lines().next().unwrap_or("").trim().to_string();
            let (f, i) = spec.rsplit_once('#').expect("replay wants family#index");
            replay = Some((f.to_string(), i.parse().expect("index")));
        } else if std::env::var("GEOSMC_WORKER").is_err() {
            supervise(property);
        }
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        std::panic::set_hook(Box::new(|i| {
            let m = i.to_string().replace('\n', " ");
            PANIC.with(|p| *p.borrow_mut() = m);
        }));
        let known = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir()))
            .unwrap_or_default().lines()
            .filter_map(|l| l.strip_prefix(&format!("known: property={} ", property)).map(|s| s.split_whitespace().next().unwrap_or("").to_string()))
            .collect();
        Check { property, thorough, seed, start: Instant::now(), replay, known, families: vec![], outcomes: BTreeMap::new(),
            samples: vec![], violation: None, known_hit: vec![],
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(32), assumptions: vec![], bounds: vec![] }
    }
    /// pick the bound for the tier
    pub fn q<T>(&self, quick: T, thorough: T) -> T { if self.thorough { thorough } else { quick } }
    
    pub fn assume(&mut self, s: &str) { self.assumptions.push(s.into()); }

    /// Explore every member 0..n of a finite family.
    pub fn family(&mut self, name: &str, n: u64, f: impl Fn(u64, &mut Ctx) -> Res + Sync) {
        if let Some((fam, i)) = &self.replay {
            if fam == name {
                let mut c = Ctx { want_note: true, ..Default::default() };
                let r = guarded(|| f(*i, &mut c)).and_then(|r| r);
                println!("replay {}#{}: {}", fam, i, c.note.clone().unwrap_or_default());
                match r { Ok(()) => println!("  held"), Err(e) => { println!("  violated: {}", e); self.violation = Some(e); } }
            }
            return;
        }
        if self.violation.is_some() { return; }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let best: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let limit = AtomicU64::new(u64::MAX);
        let done = AtomicBool::new(false);
        let chunk = (n / (self.threads as u64 * 64)).clamp(1, 4096);
        let total: Mutex<(Ctx, u64, u64, u64, Vec<(u64, String)>)> = Mutex::new(Default::default());
        let known = &self.known;
        let known_hit: Mutex<Vec<String>> = Mutex::new(vec![]);
        let stride = (n / 3).max(1);
        std::thread::scope(|s| {
            let mut hs = vec![];
            for th in 0..self.threads {
                let (next, best, limit, total, f, known_hit) = (&next, &best, &limit, &total, &f, &known_hit);
                hs.push(s.spawn(move || {
                    let mut c = Ctx::default();
                    let (mut states, mut traces, mut skipped) = (0u64, 0u64, 0u64);
                    let mut notes = vec![];
                    loop {
                        let a = next.fetch_add(chunk, Relaxed);
                        if a >= n || a > limit.load(Relaxed) { break; }
                        let b = (a + chunk).min(n);
                        let mut i = a;
                        while i < b {
                            // a panic ends the inner loop; it is judged and the loop resumed after it
                            let r = catch_unwind(AssertUnwindSafe(|| {
                                while i < b {
                                    CUR.with(|x| x.set(i));
                                    BEAT[th].store(i, Relaxed);
                                    c.skipped = false;
                                    c.want_note = i % stride == stride / 2;
                                    states += 1;
                                    let r = f(i, &mut c);
                                    if c.want_note { if let Some(m) = c.note.take() { notes.push((i, m)); } }
                                    if let Err(e) = r { return Err(e); }
                                    if c.skipped { skipped += 1 } else { traces += 1 }
                                    i += 1;
                                }
                                Ok(())
                            }));
                            let err = match r {
                                Ok(Ok(())) => break,
                                Ok(Err(e)) => e,
                                Err(_) => format!("panic: {}", PANIC.with(|p| p.borrow().clone())),
                            };
                            let key = format!("{}#{}", name, i);
                            if known.contains(&key) {
                                known_hit.lock().unwrap().push(format!("{} {}", key, err));
                                i += 1;
                                continue;
                            }
                            let mut g = best.lock().unwrap();
                            if g.as_ref().map(|(j, _)| i < *j).unwrap_or(true) { *g = Some((i, err)); }
                            limit.fetch_min(i, Relaxed);
                            break;
                        }
                    }
                    BEAT[th].store(u64::MAX, Relaxed);
                    let mut g = total.lock().unwrap();
                    g.0.transitions += c.transitions;
                    for (k, v) in c.outcomes { *g.0.outcomes.entry(k).or_insert(0) += v; }
                    g.1 += states; g.2 += traces; g.3 += skipped; g.4.extend(notes);
                }));
            }
            // watchdog: one case that runs for over 40 s does not terminate
            let threads = self.threads;
            let (done, prop) = (&done, self.property);
            let wd = s.spawn(move || {
                let mut last = vec![(u64::MAX, Instant::now()); threads];
                while !done.load(Relaxed) {
                    std::thread::sleep(Duration::from_millis(5));
                    for th in 0..threads {
                        let v = BEAT[th].load(Relaxed);
                        if v != last[th].0 { last[th] = (v, Instant::now()); }
                        else if v != u64::MAX && last[th].1.elapsed() > Duration::from_secs(40) {
                            fail(prop, &format!("{}#{}", name, v), "the implementation does not terminate on this case");
                        }
                    }
                }
            });
            for h in hs { let _ = h.join(); }
            done.store(true, Relaxed);
            let _ = wd.join();
        });
        let (c, states, traces, skipped, mut notes) = total.into_inner().unwrap();
        notes.sort();
        for (i, m) in notes.into_iter().take(2) { self.samples.push(format!("{}#{}: {}", name, i, m)); }
        for (k, v) in c.outcomes { *self.outcomes.entry(k).or_insert(0) += v; }
        self.families.push((name.to_string(), states, c.transitions, traces, skipped));
        for k in known_hit.into_inner().unwrap() {
            println!("KNOWN-FINDING: property={} {}", self.property, k);
            self.known_hit.push(k);
        }
        eprintln!("  {:<44} {:>11} cases {:>12} calls {:>9} out-of-domain {:>7.2}s", name, states, c.transitions, skipped, t0.elapsed().as_secs_f64());
        if let Some((i, e)) = best.into_inner().unwrap() {
            let key = format!("{}#{}", name, i);
            self.violation = Some(self.record(&key, &e));
        }
    }

    /// Breadth-first search of all states reachable from init. A state is whatever S says
    /// (model state plus everything observable of the implementation object); expand runs the
    /// real operations from a state and returns the successors, or an error on a violation.
    pub fn bfs<S: Clone + Eq + Hash + std::fmt::Debug>(&mut self, name: &str, init: Vec<S>, max_depth: usize, mut expand: impl FnMut(&S, &mut Ctx) -> Result<Vec<(String, S)>, String>) {
        let mut rep = None;
        if let Some((fam, i)) = &self.replay { if fam != name { return; } rep = Some(*i); }
        if self.violation.is_some() { return; }
        let t0 = Instant::now();
        let mut ctx = Ctx::default();
        let mut ids: HashMap<S, usize> = HashMap::new();
        let mut list: Vec<(S, usize, String, usize)> = vec![]; // state, parent, op, depth
        for s in init { if !ids.contains_key(&s) { ids.insert(s.clone(), list.len()); list.push((s, usize::MAX, "init".into(), 0)); } }
        let mut k = 0;
        let mut edges = 0u64;
        let mut deepest = 0;
        let mut closed = true;
        let path = |list: &Vec<(S, usize, String, usize)>, mut k: usize| {
            let mut p = vec![];
            while k != usize::MAX { p.push(list[k].2.clone()); k = list[k].1; }
            p.reverse();
            p.join(" ; ")
        };
        while k < list.len() {
            let s = list[k].0.clone();
            let depth = list[k].3;
            if depth >= max_depth { closed = false; k += 1; continue; }
            deepest = deepest.max(depth);
            BEAT[63].store(k as u64, Relaxed);
            match guarded(|| expand(&s, &mut ctx)).and_then(|r| r) {
                Ok(succ) => for (op, n) in succ {
                    edges += 1;
                    if !ids.contains_key(&n) { ids.insert(n.clone(), list.len()); list.push((n, k, op, depth + 1)); }
                },
                Err(e) => {
                    let m = format!("after [{}] in state {:?}: {}", path(&list, k), s, e);
                    if rep.is_some() { println!("replay {}#{}\n  violated: {}", name, k, m); self.violation = Some(m); return; }
                    let key = format!("{}#{}", name, k);
                    self.violation = Some(self.record(&key, &m));
                    return;
                }
            }
            if rep == Some(k as u64) { println!("replay {}#{}: {}\n  held", name, k, path(&list, k)); return; }
            k += 1;
        }
        let n = list.len() as u64;
        if n > 0 { self.samples.push(format!("{}: state {:?} reached by [{}]", name, list[(n - 1) as usize].0, path(&list, (n - 1) as usize))); }
        for (k, v) in ctx.outcomes { *self.outcomes.entry(k).or_insert(0) += v; }
        self.families.push((name.to_string(), n, ctx.transitions, edges, 0));
        self.bounds.push(format!("{}: depth {} {}", name, if closed { deepest } else { max_depth }, if closed { "(all reachable states)" } else { "(depth bound)" }));
        eprintln!("  {:<44} {:>11} states {:>11} calls {:>9} edges {}  {:>7.2}s", name, n, ctx.transitions, edges, if closed { "closed" } else { "depth-bounded" }, t0.elapsed().as_secs_f64());
    }

    fn record(&self, key: &str, e: &str) -> String {
        let p = write_replay(self.property, key, e);
        println!("VIOLATION property={} replay={}", self.property, p);
        println!("  {}: {}", key, e);
        e.to_string()
    }

    pub fn finish(mut self) -> ! {
        if self.replay.is_some() { std::process::exit(if self.violation.is_some() { 1 } else { 0 }); }
        let (mut st, mut tr, mut tv, mut sk) = (0u64, 0u64, 0u64, 0u64);
        let mut fams = String::new();
        for (k, (n, a, b, c, d)) in self.families.iter().enumerate() {
            st += a; tr += b; tv += c; sk += d;
            if k > 0 { fams.push(','); }
            fams.push_str(&format!("{{\"family\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"out_of_domain\":{}}}", js(n), a, b, c, d));
        }
        let viol = self.violation.is_some() as u32;
        if viol == 0 {
            // vacuity guard: an exploration that saw nothing, or only one kind of answer, is an error
            if tv == 0 || tr == 0 { eprintln!("vacuous exploration"); std::process::exit(2); }
        }
        if self.samples.is_empty() { self.samples.push("violation before any sample was taken".into()); }
        let samples: Vec<String> = self.samples.iter().take(40).map(|s| js(s)).collect();
        let outs: Vec<String> = self.outcomes.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let assume: Vec<String> = self.assumptions.iter().map(|s| js(s)).collect();
        let bounds: Vec<String> = self.bounds.iter().map(|s| js(s)).collect();
        let known: Vec<String> = self.known_hit.iter().map(|s| js(s)).collect();
        let tier = if self.thorough { "thorough" } else { "quick" };
        let body = format!("{{\n\"property\":{},\n\"tier\":\"{}\",\n\"seed\":{},\n\"level\":\"model_checking\",\n\"coverage\":{{\n\"states\":{},\n\"transitions\":{},\n\"traces_validated_against_impl\":{},\n\"out_of_domain\":{},\n\"exhaustive\":{},\n\"families\":[{}],\n\"search_bounds\":[{}],\n\"outcomes\":{{{}}},\n\"known_findings\":[{}],\n\"samples\":[{}]\n}},\n\"assumptions\":[{}],\n\"wall_s\":{:.3},\n\"violations\":{}\n}}\n",
            js(self.property), tier, self.seed, st, tr, tv, sk, viol == 0, fams, bounds.join(","), outs.join(","), known.join(","), samples.join(","), assume.join(","), self.start.elapsed().as_secs_f64(), viol);
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        if std::fs::write(format!("{}/{}.json", dir, self.property), body).is_err() { eprintln!("cannot write evidence"); std::process::exit(2); }
        println!("{} {}: states={} transitions={} traces={} out_of_domain={} violations={} {:.1}s", self.property, tier, st, tr, tv, sk, viol, self.start.elapsed().as_secs_f64());
        std::process::exit(viol as i32)
    }
}

fn write_replay(property: &str, key: &str, e: &str) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let name: String = key.chars().map(|c| if c.is_alphanumeric() || c == '-' { c } else { '_' }).collect();
    let p = format!("{}/{}-{}.txt", dir, property, name);
    let bin = std::env::current_exe().map(|p| p.display().to_string()).unwrap_or_default();
    let _ = std::fs::write(&p, format!("{}\n{}\n# replay with: VERIF_TIER={} {} replay {}\n", key, e, std::env::var("VERIF_TIER").unwrap_or("quick".into()), bin, p));
    p
}

/// stop at once with a violation (used where the exploring threads cannot be joined)
fn fail(property: &str, key: &str, e: &str) -> ! {
    let p = write_replay(property, key, e);
    println!("VIOLATION property={} replay={}", property, p);
    println!("  {}: {}", key, e);
    let tier = if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) { "thorough" } else { "quick" };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
    let _ = std::fs::write(format!("{}/evidence/{}.json", verif_dir(), property),
        format!("{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":1,\"transitions\":1,\"traces_validated_against_impl\":0,\"samples\":[{}],\"exhaustive\":false}},\"wall_s\":0.0,\"violations\":1}}\n", js(property), tier, seed, js(&format!("{}: {}", key, e))));
    let _ = std::io::stdout().flush();
    std::process::exit(1)
}

/// Run the exploration in a child process, so that a crash of the implementation
/// (stack exhaustion, abort) on explored inputs is seen and told from an error of the engine.
fn supervise(property: &str) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("exe");
    let st = std::process::Command::new(exe).args(std::env::args().skip(1)).env("GEOSMC_WORKER", "1").status().expect("spawn");
    match (st.code(), st.signal()) {
        (Some(c), _) => std::process::exit(c),
        (None, Some(s)) if s == 11 || s == 6 || s == 7 || s == 8 || s == 4 =>
            fail(property, "process-crash#0", &format!("the implementation crashed the exploring process with signal {}", s)),
        _ => std::process::exit(2),
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
