//! Case runner: forks worker processes, each forking one child per case (isolation and a pristine
//! process-global state per case), aggregates coverage, shrinks failures, writes evidence and replays.

use std::collections::BTreeMap;
use std::collections::HashSet;
use std::io::Read;
use std::io::Write;
use std::os::fd::FromRawFd;
use std::time::Instant;

use serde::Deserialize;
use serde::Serialize;

use crate::gen::hash_str;
use crate::gen::mix;
use crate::gen::Source;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Viol {
    /// property id this violation speaks about
    pub tag: String,
    /// stable signature (no addresses, no case-specific numbers) used to match known findings
    pub sig: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Ctx {
    pub viol: Vec<Viol>,
    pub classes: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub fp: u64,
    pub sample: String,
    pub trace: Vec<String>,
    pub tracing: bool,
    pub thorough: bool,
    pub prop: String,
}

impl Ctx {
    pub fn violate(&mut self, tag: &str, sig: &str, msg: impl Into<String>) {
        let msg = msg.into();
        if self.tracing {
            self.trace.push(format!("!! VIOLATION[{tag}] {sig}: {msg}"));
        }
        if self.viol.len() < 50 {
            self.viol.push(Viol { tag: tag.to_string(), sig: sig.to_string(), msg });
        }
    }
    /// Violation of the property under check.
    pub fn fail(&mut self, sig: &str, msg: impl Into<String>) {
        let p = self.prop.clone();
        self.violate(&p, sig, msg);
    }
    pub fn class(&mut self, name: &str) {
        *self.classes.entry(name.to_string()).or_insert(0) += 1;
    }
    pub fn class_n(&mut self, name: &str, n: u64) {
        *self.classes.entry(name.to_string()).or_insert(0) += n;
    }
    pub fn fp(&mut self, x: u64) {
        self.fp = mix(self.fp, x);
    }
    pub fn t(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            self.trace.push(s);
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Source, &mut Ctx),
    pub quick: u64,
    pub thorough: u64,
    /// run every case in its own process
    pub fork: bool,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// deterministic regression cases (fixed inputs), run first
    pub pinned: &'static [(&'static str, fn(&mut Ctx))],
}

#[derive(Serialize, Deserialize, Default, Clone)]
struct CaseOut {
    viol: Vec<Viol>,
    classes: BTreeMap<String, u64>,
    nontrivial: bool,
    fp: u64,
    sample: String,
    choices: Vec<u64>,
    spans: Vec<(u32, u32)>,
    trace: Vec<String>,
    #[serde(default)]
    error: Option<String>,
    /// the case process hung or died of a signal: a defect if it happens again
    #[serde(default)]
    dead: Option<String>,
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerMsg {
    done: bool,
    idx: u64,
    cases: u64,
    fps: Vec<u64>,
    nontrivial: u64,
    classes: BTreeMap<String, u64>,
    samples: Vec<(u64, String)>,
    failure: Option<CaseOut>,
    error: Option<String>,
    truncated: bool,
}

fn panic_to_string(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-string panic".into()
    }
}

fn run_in_process(p: &Prop, mut src: Source, tier_thorough: bool, tracing: bool, want_choices: bool) -> CaseOut {
    let mut ctx = Ctx { prop: p.id.to_string(), tracing, thorough: tier_thorough, ..Default::default() };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut src, &mut ctx)));
    let error = match r {
        Ok(()) => None,
        Err(e) => Some(format!("harness panic: {} {:?}", panic_to_string(e), crate::exec::take_panic())),
    };
    let keep = want_choices || !ctx.viol.is_empty();
    CaseOut {
        viol: ctx.viol,
        classes: ctx.classes,
        nontrivial: ctx.nontrivial,
        fp: ctx.fp,
        sample: ctx.sample,
        choices: if keep { src.recorded } else { vec![] },
        spans: if keep { src.spans } else { vec![] },
        trace: ctx.trace,
        error,
        dead: None,
    }
}

struct Child {
    pid: i32,
    fd: i32,
    buf: Vec<u8>,
    start: Instant,
}

fn fork_child(f: impl FnOnce() -> Vec<u8>) -> Child {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let out = f();
            let mut file = std::fs::File::from_raw_fd(fds[1]);
            let _ = file.write_all(&out);
            drop(file);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        Child { pid, fd: fds[0], buf: vec![], start: Instant::now() }
    }
}

enum ChildEnd {
    Out(Vec<u8>),
    Signal(i32),
    Timeout,
}

fn wait_child(mut c: Child, wall_ms: u64) -> ChildEnd {
    loop {
        let left = wall_ms as i64 - c.start.elapsed().as_millis() as i64;
        if left <= 0 {
            unsafe {
                libc::kill(c.pid, libc::SIGKILL);
                let mut st = 0;
                libc::waitpid(c.pid, &mut st, 0);
                libc::close(c.fd);
            }
            return ChildEnd::Timeout;
        }
        let mut pfd = libc::pollfd { fd: c.fd, events: libc::POLLIN, revents: 0 };
        let n = unsafe { libc::poll(&mut pfd, 1, left.min(1000) as i32) };
        if n > 0 {
            let mut tmp = [0u8; 65536];
            let r = unsafe { libc::read(c.fd, tmp.as_mut_ptr() as *mut _, tmp.len()) };
            if r > 0 {
                c.buf.extend_from_slice(&tmp[..r as usize]);
            } else {
                let mut st = 0;
                unsafe {
                    libc::waitpid(c.pid, &mut st, 0);
                    libc::close(c.fd);
                }
                if libc::WIFSIGNALED(st) {
                    return ChildEnd::Signal(libc::WTERMSIG(st));
                }
                return ChildEnd::Out(c.buf);
            }
        }
    }
}

const CASE_WALL_MS: u64 = 60_000;

fn collect(c: Child) -> CaseOut {
    match wait_child(c, CASE_WALL_MS) {
        ChildEnd::Out(b) => serde_json::from_slice(&b)
            .unwrap_or_else(|e| CaseOut { error: Some(format!("bad child output: {e} len={}", b.len())), ..Default::default() }),
        ChildEnd::Signal(s) => CaseOut {
            error: Some(format!("case process died of signal {s}")),
            dead: if s == libc::SIGKILL { None } else { Some(format!("died-of-signal-{s}")) },
            ..Default::default()
        },
        ChildEnd::Timeout => CaseOut {
            error: Some("case exceeded its wall-clock watchdog".into()),
            dead: Some("hang".into()),
            ..Default::default()
        },
    }
}

fn spawn_case(p: &Prop, src: Source, thorough: bool, tracing: bool, want: bool) -> Child {
    fork_child(|| serde_json::to_vec(&run_in_process(p, src, thorough, tracing, want)).unwrap())
}

fn eval_one(p: &Prop, src: Source, thorough: bool, tracing: bool, want: bool) -> CaseOut {
    collect(spawn_case(p, src, thorough, tracing, want))
}

pub fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    mix(mix(seed, hash_str(id)), idx + 1)
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    tier: String,
    pinned: Option<String>,
    choices: Vec<u64>,
    /// instead of choices: the generated case of (seed, index)
    #[serde(default)]
    generated: Option<(u64, u64)>,
    violations: Vec<Viol>,
    trace: Vec<String>,
}

#[derive(Deserialize)]
struct Known {
    #[serde(default)]
    findings: Vec<KnownFinding>,
}
#[derive(Deserialize, Clone)]
struct KnownFinding {
    property: String,
    sig: String,
    what: String,
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

fn load_known() -> Vec<KnownFinding> {
    let p = format!("{}/known_findings.json", verif_dir());
    match std::fs::read(&p) {
        Ok(b) => serde_json::from_slice::<Known>(&b).expect("known_findings.json").findings,
        Err(_) => vec![],
    }
}

fn relevant<'a>(p: &Prop, out: &'a CaseOut, known: &[KnownFinding]) -> (Vec<&'a Viol>, Vec<&'a Viol>) {
    let mut fresh = vec![];
    let mut listed = vec![];
    for v in &out.viol {
        // every safety property is part of "the guarantees still hold in single-term-leader mode"
        const SAFETY: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C22"];
        let implied = p.id == "C26" && SAFETY.contains(&v.tag.as_str());
        if v.tag != p.id && v.tag != "ANY" && !implied {
            continue;
        }
        if known.iter().any(|k| k.property == p.id && k.sig == v.sig) {
            listed.push(v);
        } else {
            fresh.push(v);
        }
    }
    (fresh, listed)
}

pub struct Opts {
    pub thorough: bool,
    pub seed: u64,
    pub cases: Option<u64>,
    pub jobs: u64,
}

pub fn check(p: &Prop, o: &Opts) -> i32 {
    let start = Instant::now();
    let known = load_known();
    let tier = if o.thorough { "thorough" } else { "quick" };
    let total = o.cases.unwrap_or(if o.thorough { p.thorough } else { p.quick });
    let soft_wall: u64 = std::env::var("ORPBT_WALL_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if o.thorough { 3600 } else { 480 });
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut errors: Vec<String> = vec![];
    let mut failure: Option<(Option<String>, CaseOut)> = None;

    // 1. pinned regression cases
    let mut pinned_n = 0u64;
    for (name, f) in p.pinned {
        pinned_n += 1;
        let c = fork_child(|| {
            let mut ctx = Ctx { prop: p.id.to_string(), tracing: true, ..Default::default() };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut ctx)));
            let error = r.err().map(|e| format!("pinned {name}: harness panic {} {:?}", panic_to_string(e), crate::exec::take_panic()));
            serde_json::to_vec(&CaseOut { viol: ctx.viol, classes: ctx.classes, trace: ctx.trace, error, ..Default::default() }).unwrap()
        });
        let out = collect(c);
        if let Some(e) = &out.error {
            errors.push(e.clone());
        }
        let (fresh, listed) = relevant(p, &out, &known);
        for v in listed {
            *known_hits.entry(v.sig.clone()).or_default() += 1;
        }
        if !fresh.is_empty() && failure.is_none() {
            failure = Some((Some(name.to_string()), out.clone()));
        }
    }

    // 2. generated cases, in worker processes
    let mut evals = 0u64;
    let mut nontrivial = 0u64;
    let mut fps: HashSet<u64> = HashSet::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<(u64, String)> = vec![];
    let mut truncated = false;
    if failure.is_none() && total > 0 {
        let mut workers: Vec<Child> = vec![];
        for w in 0..o.jobs {
            let known = known.clone();
            let c = spawn_worker(p, w, o, total, soft_wall, known);
            workers.push(c);
        }
        let mut open: Vec<Option<Child>> = workers.into_iter().map(Some).collect();
        let mut lines: Vec<Vec<u8>> = open.iter().map(|_| vec![]).collect();
        let mut finished: Vec<bool> = open.iter().map(|_| false).collect();
        let mut stop = false;
        while open.iter().any(|x| x.is_some()) {
            let mut pfds: Vec<libc::pollfd> = vec![];
            let mut idxs = vec![];
            for (i, c) in open.iter().enumerate() {
                if let Some(c) = c {
                    pfds.push(libc::pollfd { fd: c.fd, events: libc::POLLIN, revents: 0 });
                    idxs.push(i);
                }
            }
            let n = unsafe { libc::poll(pfds.as_mut_ptr(), pfds.len() as u64, 1000) };
            if n <= 0 {
                continue;
            }
            for (k, pfd) in pfds.iter().enumerate() {
                if pfd.revents == 0 {
                    continue;
                }
                let i = idxs[k];
                let mut tmp = vec![0u8; 1 << 16];
                let r = unsafe { libc::read(pfd.fd, tmp.as_mut_ptr() as *mut _, tmp.len()) };
                if r > 0 {
                    lines[i].extend_from_slice(&tmp[..r as usize]);
                    while let Some(pos) = lines[i].iter().position(|b| *b == b'\n') {
                        let line: Vec<u8> = lines[i].drain(..=pos).collect();
                        let m: WorkerMsg = match serde_json::from_slice(&line) {
                            Ok(m) => m,
                            Err(e) => {
                                errors.push(format!("worker message: {e}"));
                                continue;
                            }
                        };
                        evals += m.cases;
                        nontrivial += m.nontrivial;
                        fps.extend(m.fps);
                        for (k, v) in m.classes {
                            if let Some(s) = k.strip_prefix("known:") {
                                *known_hits.entry(s.to_string()).or_default() += v;
                            }
                            *classes.entry(k).or_default() += v;
                        }
                        samples.extend(m.samples);
                        truncated |= m.truncated;
                        if let Some(e) = m.error {
                            errors.push(e);
                        }
                        if let Some(f) = m.failure {
                            eprintln!("[{}] failing case idx={}: {} :: {}", p.id, m.idx, f.viol[0].sig, f.viol[0].msg);
                            if failure.is_none() {
                                failure = Some((None, f));
                            }
                            stop = true;
                        }
                        if m.done {
                            finished[i] = true;
                        }
                    }
                } else {
                    let c = open[i].take().unwrap();
                    unsafe {
                        let mut st = 0;
                        libc::waitpid(c.pid, &mut st, 0);
                        libc::close(c.fd);
                    }
                    if !finished[i] && !stop {
                        errors.push(format!("worker {i} died"));
                    }
                }
            }
            if stop {
                for c in open.iter_mut() {
                    if let Some(c) = c.take() {
                        unsafe {
                            libc::kill(-c.pid, libc::SIGKILL);
                            libc::kill(c.pid, libc::SIGKILL);
                            let mut st = 0;
                            libc::waitpid(c.pid, &mut st, 0);
                            libc::close(c.fd);
                        }
                    }
                }
            }
        }
    }

    // 3. failure: shrink, write the replay file
    let mut code = 0;
    let mut nviol = 0;
    if let Some((pinned, out)) = failure {
        nviol = 1;
        let final_out = if pinned.is_some() || out.dead.is_some() {
            out
        } else {
            shrink(p, out, o, &known)
        };
        let path = write_replay(p, tier, pinned, &final_out, o.seed);
        for v in final_out.viol.iter().filter(|v| v.tag == p.id || v.tag == "ANY" || p.id == "C26") {
            println!("  [{}] {}: {}", v.tag, v.sig, v.msg);
        }
        println!("VIOLATION property={} replay={}", p.id, path);
        code = 1;
    } else if !errors.is_empty() {
        for e in errors.iter().take(5) {
            eprintln!("ERROR {}: {}", p.id, e);
        }
        code = 2;
    }
    for k in &known {
        if k.property == p.id && known_hits.contains_key(&k.sig) {
            println!("KNOWN-FINDING: property={} {}", p.id, k.what);
        }
    }

    samples.sort();
    samples.truncate(3);
    let ev = serde_json::json!({
        "property": p.id, "tier": tier, "seed": o.seed, "level": p.level,
        "coverage": {
            "evaluations": evals + pinned_n,
            "distinct_nontrivial": fps.len() as u64,
            "nontrivial_total": nontrivial,
            "pinned_cases": pinned_n,
            "rule": p.rule,
            "classes": classes,
            "samples": samples.iter().map(|(i, s)| serde_json::json!({"case": i, "text": s})).collect::<Vec<_>>(),
            "stopped_early_on_wall_clock": truncated,
            "known_findings_reproduced": known_hits,
        },
        "assumptions": p.assumptions,
        "wall_s": (start.elapsed().as_millis() as f64) / 1000.0,
        "violations": nviol,
    });
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let suffix = std::env::var("ORPBT_EVIDENCE_SUFFIX").unwrap_or_default();
    let mut ev = ev;
    // a first part of the check already ran in another build: count it in
    if let Some(part) = std::env::var("ORPBT_EVIDENCE_PART").ok().and_then(|f| std::fs::read(f).ok()).and_then(|b| serde_json::from_slice::<serde_json::Value>(&b).ok()) {
        let pc = &part["coverage"];
        for k in ["evaluations", "distinct_nontrivial", "nontrivial_total", "pinned_cases"] {
            let sum = ev["coverage"][k].as_u64().unwrap_or(0) + pc[k].as_u64().unwrap_or(0);
            ev["coverage"][k] = sum.into();
        }
        ev["wall_s"] = (ev["wall_s"].as_f64().unwrap_or(0.0) + part["wall_s"].as_f64().unwrap_or(0.0)).into();
        ev["coverage"]["of_these_in_single_term_leader_build"] = pc["evaluations"].clone();
    }
    std::fs::write(format!("{dir}/{}{suffix}.json", p.id), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    println!(
        "[{}] tier={} seed={} evaluations={} distinct_nontrivial={} errors={} wall={:.1}s",
        p.id, tier, o.seed, evals + pinned_n, fps.len(), errors.len(), start.elapsed().as_secs_f64()
    );
    code
}

fn spawn_worker(p: &Prop, w: u64, o: &Opts, total: u64, soft_wall: u64, known: Vec<KnownFinding>) -> Child {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid != 0 {
            libc::close(fds[1]);
            return Child { pid, fd: fds[0], buf: vec![], start: Instant::now() };
        }
        libc::setpgid(0, 0);
        libc::close(fds[0]);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let mut file = unsafe { std::fs::File::from_raw_fd(fds[1]) };
    let start = Instant::now();
    let mut agg = WorkerMsg::default();
    let mut errs = 0;
    let mut i = w;
    let mut send = |m: &WorkerMsg| {
        let mut b = serde_json::to_vec(m).unwrap();
        b.push(b'\n');
        let _ = file.write_all(&b);
    };
    let mut seen: HashSet<u64> = HashSet::new();
    while i < total {
        if start.elapsed().as_secs() > soft_wall {
            agg.truncated = true;
            break;
        }
        let src = Source::random(case_seed(o.seed, p.id, i));
        let mut out = if p.fork {
            eval_one(p, src, o.thorough, false, false)
        } else {
            run_in_process(p, src, o.thorough, false, false)
        };
        if out.dead.is_some() {
            // Normal cases take milliseconds. Once more: only a case that hangs or dies twice is a finding.
            let again = eval_one(p, Source::random(case_seed(o.seed, p.id, i)), o.thorough, false, false);
            if again.dead == out.dead {
                let sig = again.dead.clone().unwrap();
                out = CaseOut { choices: vec![], ..Default::default() };
                out.viol.push(Viol {
                    tag: "ANY".into(),
                    msg: format!("case {i} of seed {}: the process running the code never finishes (60 s for a case that takes milliseconds) or dies: {sig}", o.seed),
                    sig,
                });
                out.dead = Some(format!("{i}"));
            } else {
                out = again;
            }
        }
        agg.cases += 1;
        if let Some(e) = out.error {
            errs += 1;
            let m = WorkerMsg { error: Some(format!("case {i}: {e}")), idx: i, ..Default::default() };
            send(&m);
            if errs > 3 {
                break;
            }
        } else {
            if out.nontrivial {
                agg.nontrivial += 1;
                if seen.insert(out.fp) {
                    agg.fps.push(out.fp);
                }
            }
            if agg.samples.len() < 1 && out.nontrivial {
                agg.samples.push((i, out.sample.clone()));
            }
            for (k, v) in &out.classes {
                *agg.classes.entry(k.clone()).or_default() += v;
            }
            let (fresh, listed) = relevant(p, &out, &known);
            for v in listed {
                *agg.classes.entry(format!("known:{}", v.sig)).or_default() += 1;
            }
            if !fresh.is_empty() {
                let m = WorkerMsg { failure: Some(out.clone()), idx: i, ..Default::default() };
                send(&m);
                break;
            }
        }
        i += o.jobs;
    }
    agg.done = true;
    send(&agg);
    unsafe { libc::_exit(0) }
}

fn write_replay(p: &Prop, tier: &str, pinned: Option<String>, out: &CaseOut, seed: u64) -> String {
    let generated = out.dead.as_ref().and_then(|i| i.parse().ok()).map(|i: u64| (seed, i));
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let h = out.choices.iter().fold(hash_str(p.id), |a, b| mix(a, *b));
    let path = format!("{dir}/{}-{:016x}.json", p.id, h);
    let r = Replay {
        property: p.id.to_string(),
        tier: tier.to_string(),
        pinned,
        choices: out.choices.clone(),
        generated,
        violations: out.viol.clone(),
        trace: out.trace.clone(),
    };
    std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).expect("write replay");
    path
}

fn shrink(p: &Prop, first: CaseOut, o: &Opts, known: &[KnownFinding]) -> CaseOut {
    let start = Instant::now();
    let budget_s: u64 = std::env::var("ORPBT_SHRINK_S").ok().and_then(|s| s.parse().ok()).unwrap_or(45);
    let want_sig: String = {
        let (f, _) = relevant(p, &first, known);
        f[0].sig.clone()
    };
    let mut best = first;
    let still = |out: &CaseOut| out.error.is_none() && relevant(p, out, known).0.iter().any(|v| v.sig == want_sig);
    let mut evals = 0u64;
    // evaluate candidates in parallel, return the first (lowest index) success
    let try_batch = |cands: Vec<Vec<u64>>, evals: &mut u64| -> Option<CaseOut> {
        let mut res: Option<CaseOut> = None;
        for chunk in cands.chunks(o.jobs.max(1) as usize) {
            if start.elapsed().as_secs() >= budget_s {
                break;
            }
            let kids: Vec<Child> = chunk.iter().map(|c| spawn_case(p, Source::replay(c.clone()), o.thorough, false, true)).collect();
            for k in kids {
                let out = collect(k);
                *evals += 1;
                if res.is_none() && still(&out) {
                    res = Some(out);
                }
            }
            if res.is_some() {
                break;
            }
        }
        res
    };
    let trim = |mut v: Vec<u64>| {
        while v.last() == Some(&0) {
            v.pop();
        }
        v
    };
    let simpler = |a: &[u64], b: &[u64]| {
        let a = trim(a.to_vec());
        let b = trim(b.to_vec());
        (a.len(), a) < (b.len(), b)
    };
    best.choices = trim(best.choices);
    let mut improved = true;
    while improved && start.elapsed().as_secs() < budget_s {
        improved = false;
        // pass 1: delete spans, big to small
        let mut spans = best.spans.clone();
        spans.sort_by_key(|(s, e)| std::cmp::Reverse(e - s));
        spans.dedup();
        let mut i = 0;
        while i < spans.len() && start.elapsed().as_secs() < budget_s {
            let group: Vec<(u32, u32)> = spans[i..].iter().take(o.jobs as usize).copied().collect();
            let cands: Vec<Vec<u64>> = group
                .iter()
                .filter(|(s, e)| (*e as usize) <= best.choices.len() && e > s)
                .map(|(s, e)| {
                    let mut c = best.choices.clone();
                    c.drain(*s as usize..*e as usize);
                    c
                })
                .collect();
            i += group.len();
            if cands.is_empty() {
                continue;
            }
            if let Some(out) = try_batch(cands, &mut evals) {
                if simpler(&out.choices, &best.choices) {
                    best = out;
                    best.choices = trim(best.choices);
                    improved = true;
                    spans = best.spans.clone();
                    spans.sort_by_key(|(s, e)| std::cmp::Reverse(e - s));
                    spans.dedup();
                    i = 0;
                }
            }
        }
        // pass 2: zero spans and chunks
        let mut size = best.choices.len() / 2;
        while size >= 1 && start.elapsed().as_secs() < budget_s {
            let mut cands = vec![];
            let mut s = 0;
            while s < best.choices.len() {
                let e = (s + size).min(best.choices.len());
                if best.choices[s..e].iter().any(|x| *x != 0) {
                    let mut c = best.choices.clone();
                    for x in &mut c[s..e] {
                        *x = 0;
                    }
                    cands.push(c);
                }
                s = e;
            }
            let mut any = false;
            if let Some(out) = try_batch(cands, &mut evals) {
                if simpler(&out.choices, &best.choices) {
                    best = out;
                    best.choices = trim(best.choices);
                    improved = true;
                    any = true;
                }
            }
            if !any {
                size /= 2;
            }
        }
        // pass 3: minimise single values
        let mut k = 0;
        while k < best.choices.len() && start.elapsed().as_secs() < budget_s {
            let v = best.choices[k];
            if v > 0 {
                let mut vals = vec![0, 1, v / 2, v - v / 4, v - 1];
                vals.retain(|x| *x < v);
                vals.dedup();
                let cands: Vec<Vec<u64>> = vals
                    .into_iter()
                    .map(|x| {
                        let mut c = best.choices.clone();
                        c[k] = x;
                        c
                    })
                    .collect();
                if let Some(out) = try_batch(cands, &mut evals) {
                    if simpler(&out.choices, &best.choices) {
                        best = out;
                        best.choices = trim(best.choices);
                        improved = true;
                        continue;
                    }
                }
            }
            k += 1;
        }
    }
    eprintln!("[{}] shrunk to {} choices in {} evaluations, {:.0}s", p.id, best.choices.len(), evals, start.elapsed().as_secs_f64());
    // final traced run
    let traced = eval_one(p, Source::replay(best.choices.clone()), o.thorough, true, true);
    if still(&traced) {
        let mut t = traced;
        t.choices = best.choices;
        t
    } else {
        best
    }
}

pub fn replay(props: &[&Prop], path: &str, quiet: bool) -> i32 {
    let b = std::fs::read(path).expect("read replay");
    let r: Replay = serde_json::from_slice(&b).expect("parse replay");
    let p = props.iter().find(|p| p.id == r.property).expect("property");
    let known = load_known();
    let out = if let Some(name) = &r.pinned {
        let f = p.pinned.iter().find(|(n, _)| n == name).expect("pinned case").1;
        let mut ctx = Ctx { prop: p.id.to_string(), tracing: true, ..Default::default() };
        f(&mut ctx);
        CaseOut { viol: ctx.viol, trace: ctx.trace, ..Default::default() }
    } else if let Some((seed, i)) = r.generated {
        let mut out = eval_one(p, Source::random(case_seed(seed, p.id, i)), r.tier == "thorough", true, true);
        if let Some(sig) = out.dead.take() {
            out.error = None;
            out.viol.push(Viol { tag: "ANY".into(), msg: sig.clone(), sig });
        }
        out
    } else {
        eval_one(p, Source::replay(r.choices), r.tier == "thorough", true, true)
    };
    finish_single(p, &out, &known, path, quiet)
}

fn finish_single(p: &Prop, out: &CaseOut, known: &[KnownFinding], path: &str, quiet: bool) -> i32 {
    if !quiet {
        for l in &out.trace {
            println!("{l}");
        }
        println!("sample: {}", out.sample);
        println!("classes: {:?}", out.classes);
    }
    if let Some(e) = &out.error {
        println!("ERROR {e}");
        return 2;
    }
    for v in &out.viol {
        println!("[{}] {}: {}", v.tag, v.sig, v.msg);
    }
    let (fresh, _) = relevant(p, out, known);
    if !fresh.is_empty() {
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    println!("held");
    0
}

/// Debug: run one generated case with a trace.
pub fn one_case(p: &Prop, seed: u64, idx: u64, thorough: bool, save: Option<&str>) -> i32 {
    let out = eval_one(p, Source::random(case_seed(seed, p.id, idx)), thorough, true, true);
    if let Some(s) = save {
        let r = Replay { property: p.id.into(), tier: if thorough { "thorough" } else { "quick" }.into(), pinned: None, generated: None, choices: out.choices.clone(), violations: out.viol.clone(), trace: vec![] };
        std::fs::write(s, serde_json::to_string(&r).unwrap()).unwrap();
    }
    finish_single(p, &out, &load_known(), "-", false)
}

/// Debug: run one pinned case with a trace.
pub fn pinned_case(p: &Prop, name: &str) -> i32 {
    let f = p.pinned.iter().find(|(n, _)| *n == name).expect("pinned case").1;
    let mut ctx = Ctx { prop: p.id.to_string(), tracing: true, ..Default::default() };
    f(&mut ctx);
    let out = CaseOut { viol: ctx.viol, trace: ctx.trace, classes: ctx.classes, ..Default::default() };
    finish_single(p, &out, &load_known(), "-", false)
}

/// Debug: run many cases and print a histogram of all violations (any tag).
pub fn survey(p: &Prop, o: &Opts) -> i32 {
    let total = o.cases.unwrap_or(p.quick);
    let start = Instant::now();
    let mut kids = vec![];
    for w in 0..o.jobs {
        kids.push(fork_child(|| {
            let mut hist: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
            let mut classes: BTreeMap<String, u64> = BTreeMap::new();
            let mut i = w;
            let mut slow = (0u128, 0u64);
            while i < total {
                let t0 = Instant::now();
                let src = Source::random(case_seed(o.seed, p.id, i));
                let out = if p.fork { eval_one(p, src, o.thorough, false, false) } else { run_in_process(p, src, o.thorough, false, false) };
                let el = t0.elapsed().as_millis();
                if el > slow.0 {
                    slow = (el, i);
                }
                if let Some(e) = out.error {
                    let x = hist.entry(format!("ERROR {e}")).or_insert((0, i, e.clone()));
                    x.0 += 1;
                }
                let mut seen = HashSet::new();
                for v in &out.viol {
                    let k = format!("[{}] {}", v.tag, v.sig);
                    if seen.insert(k.clone()) {
                        let x = hist.entry(k).or_insert((0, i, v.msg.clone()));
                        x.0 += 1;
                    }
                }
                for (k, v) in out.classes {
                    *classes.entry(k).or_default() += v;
                }
                *classes.entry("nontrivial".into()).or_default() += out.nontrivial as u64;
                i += o.jobs;
            }
            serde_json::to_vec(&(hist, classes, slow.0 as u64, slow.1)).unwrap()
        }));
    }
    let mut hist: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut slow = (0, 0);
    for k in kids {
        if let ChildEnd::Out(b) = wait_child(k, 7_200_000) {
            if let Ok((h, c, s, si)) = serde_json::from_slice::<(BTreeMap<String, (u64, u64, String)>, BTreeMap<String, u64>, u64, u64)>(&b) {
                for (k, v) in h {
                    let x = hist.entry(k).or_insert((0, v.1, v.2.clone()));
                    x.0 += v.0;
                    if v.1 < x.1 {
                        x.1 = v.1;
                        x.2 = v.2;
                    }
                }
                for (k, v) in c {
                    *classes.entry(k).or_default() += v;
                }
                if s > slow.0 {
                    slow = (s, si);
                }
            } else {
                println!("bad worker output");
            }
        } else {
            println!("worker died");
        }
    }
    println!("== {} cases in {:.1}s; slowest {:?}", total, start.elapsed().as_secs_f64(), slow);
    for (k, (n, i, m)) in &hist {
        println!("{n:6} {k}   e.g. case {i}: {}", m.chars().take(300).collect::<String>());
    }
    println!("classes: {:#?}", classes);
    0
}

#[allow(dead_code)]
pub fn read_all(path: &str) -> String {
    let mut s = String::new();
    std::fs::File::open(path).unwrap().read_to_string(&mut s).unwrap();
    s
}
