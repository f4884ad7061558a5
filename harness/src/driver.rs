//! Command line, worker isolation, evidence and replay files.
use crate::engine::*;
use crate::props;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::process::Command;

// ---- counting allocator: live bytes per thread ----

pub struct Counting;
thread_local! {
    static LIVE: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
}
fn track(d: i64) {
    let _ = LIVE.try_with(|c| {
        let (l, p) = c.get();
        let l = l + d;
        c.set((l, p.max(l)));
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        track(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        track(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        track(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        track(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
/// Peak of live heap bytes allocated by `f` on this thread
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let (l0, p0) = LIVE.with(|c| c.get());
    LIVE.with(|c| c.set((l0, l0)));
    let v = f();
    let (l1, p1) = LIVE.with(|c| c.get());
    LIVE.with(|c| c.set((l1, p0.max(p1))));
    (v, p1 - l0)
}

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(r: i32, l: *const RLimit) -> i32;
    fn alarm(s: u32) -> u32;
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;
fn limit(r: i32, v: u64) {
    let l = RLimit { cur: v, max: v };
    unsafe {
        setrlimit(r, &l);
    }
}

/// SIGXCPU after this much processor time, SIGALRM after four times as much in any case
fn soft_cpu(s: u64) {
    unsafe {
        alarm(4 * s as u32);
    }
    let l = RLimit { cur: s, max: s + 60 };
    unsafe {
        setrlimit(RLIMIT_CPU, &l);
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: Vec<Sub>,
    pub assumptions: &'static [&'static str],
    /// also run (scaled) in the unoptimised build
    pub debug_scale: f64,
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1)
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) >= 0x7f => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn work_dir() -> String {
    let d = format!("{}/work/run-{}", verif_dir(), std::process::id());
    std::fs::create_dir_all(&d).expect("work dir");
    d
}

#[derive(Default, Clone)]
pub struct Summary {
    pub evals: u64,
    pub nontrivial: u64,
    pub distinct: u64,
    pub subs: Vec<(String, u64, u64)>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub fail: Option<(String, Vec<u64>, String)>,
    /// the failing case before shrinking
    pub unshrunk: Option<(Vec<u64>, String)>,
    pub broken: Option<String>,
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

fn tape_str(t: &[u64]) -> String {
    t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}
fn tape_parse(s: &str) -> Vec<u64> {
    s.split_whitespace().filter_map(|x| x.parse().ok()).collect()
}

/// wall time after which a case is suspected not to end, and the processor time that confirms it
const STALL_MS: u64 = 90_000;
const STUCK_CPU: u64 = 30;

fn worker(p: &Prop, thorough: bool, scale: f64, seed: u64, journal: &str, out: &str) -> i32 {
    limit(RLIMIT_CORE, 0);
    limit(RLIMIT_AS, 20 << 30);
    install_panic_hook();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 16);
    let j = std::sync::Arc::new(Journal::open(Some(journal)));
    {
        // a case takes milliseconds; one that does not end is reported and confirmed on its own
        let (j, out) = (j.clone(), out.to_string());
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(250));
            if let Some((slot, sub, idx)) = j.overdue(STALL_MS) {
                if slot != Journal::EXTRA {
                    let _ = std::fs::write(&out, format!("H\t{sub}\t{idx}\n"));
                }
                // while shrinking: the failure as first found has been written already
                std::process::exit(if slot == Journal::EXTRA { 0 } else { 5 });
            }
        });
    }
    let r = run_subs(&p.subs, seed, thorough, scale, threads, &j);
    let mut o = String::new();
    let _ = writeln!(o, "E\t{}\t{}\t{}", r.cov.evals, r.cov.nontrivial, r.cov.distinct.len());
    for (n, e, d) in &r.per_sub {
        let _ = writeln!(o, "S\t{n}\t{e}\t{d}");
    }
    for (l, c) in &r.cov.labels {
        let _ = writeln!(o, "L\t{l}\t{c}");
    }
    for s in &r.cov.samples {
        let _ = writeln!(o, "X\t{}", esc(s));
    }
    if let Some(b) = &r.broken {
        let _ = writeln!(o, "B\t{}", esc(b));
    } else if let Some(f) = r.failure {
        let sub = p.subs.iter().find(|s| s.name == f.sub).expect("sub");
        let _ = writeln!(o, "O\t{}\t{}", tape_str(&f.tape), esc(&f.msg));
        std::fs::write(out, format!("{o}F\t{}\t{}\t{}\n", sub.name, tape_str(&f.tape), esc(&f.msg))).expect("write result");
        // shrink in this process, on a thread like the workers'
        let (tape, msg) = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn({
                let run = sub.run;
                let j = j.clone();
                let start = std::time::Instant::now();
                move || {
                    shrink(f.tape, f.msg, 20_000, |t| {
                        if start.elapsed().as_secs() > 90 {
                            return None;
                        }
                        j.begin(Journal::EXTRA, 0, 0);
                        let mut src = Src::from_tape(t.to_vec());
                        let mut cov = Cov { quiet: true, ..Cov::default() };
                        match run_case(run, &mut src, &mut cov) {
                            Outcome::Fail(m) => Some((src.used_tape(), m)),
                            _ => None,
                        }
                    })
                }
            })
            .expect("spawn")
            .join()
            .expect("shrink");
        j.end(Journal::EXTRA);
        let _ = writeln!(o, "F\t{}\t{}\t{}", sub.name, tape_str(&tape), esc(&msg));
    }
    std::fs::write(out, o).expect("write result");
    0
}

fn read_summary(path: &str) -> Option<Summary> {
    let t = std::fs::read_to_string(path).ok()?;
    let mut s = Summary::default();
    for l in t.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "E" => {
                s.evals = f[1].parse().ok()?;
                s.nontrivial = f[2].parse().ok()?;
                s.distinct = f[3].parse().ok()?;
            }
            "S" => s.subs.push((f[1].into(), f[2].parse().ok()?, f[3].parse().ok()?)),
            "L" => {
                s.labels.insert(f[1].into(), f[2].parse().ok()?);
            }
            "X" => s.samples.push(unesc(f[1])),
            "B" => s.broken = Some(unesc(f[1])),
            "O" => s.unshrunk = Some((tape_parse(f[1]), unesc(f[2]))),
            "F" => s.fail = Some((f[1].into(), tape_parse(f[2]), unesc(f[3]))),
            _ => {}
        }
    }
    Some(s)
}

enum Iso {
    Pass,
    Fail(Vec<u64>, String),
    Broken(String),
    Crash(String),
    Stuck,
}

fn signal_name(sig: i32) -> &'static str {
    match sig {
        4 => "SIGILL",
        6 => "SIGABRT",
        7 => "SIGBUS",
        11 => "SIGSEGV",
        _ => "a signal",
    }
}

/// run one tape in a process of its own
fn isolated(bin: &str, prop: &str, sub: &str, tape: &[u64], dir: &str) -> Iso {
    isolated_for(bin, prop, sub, tape, dir, STUCK_CPU)
}
fn isolated_for(bin: &str, prop: &str, sub: &str, tape: &[u64], dir: &str, cpu: u64) -> Iso {
    use std::os::unix::process::ExitStatusExt;
    let tf = format!("{dir}/tape");
    std::fs::write(&tf, tape_str(tape)).expect("tape");
    let o = match Command::new(bin).args(["tape", prop, sub, &tf, &cpu.to_string()]).output() {
        Ok(o) => o,
        Err(e) => return Iso::Broken(e.to_string()),
    };
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    match o.status.code() {
        Some(0) => Iso::Pass,
        Some(3) => {
            let mut l = out.splitn(2, '\n');
            let t = tape_parse(l.next().unwrap_or(""));
            Iso::Fail(t, l.next().unwrap_or("").trim().to_string())
        }
        Some(4) => Iso::Broken(out),
        Some(c) => Iso::Broken(format!("exit {c}: {out}")),
        None => {
            let sig = o.status.signal().unwrap_or(0);
            if sig == 24 || sig == 14 {
                return Iso::Stuck;
            }
            if sig == 9 {
                return Iso::Broken("killed".into());
            }
            let err = String::from_utf8_lossy(&o.stderr).to_string();
            let why = err.lines().filter(|l| !l.trim().is_empty()).take(2).collect::<Vec<_>>().join(" / ");
            Iso::Crash(format!("process killed by {} ({})", signal_name(sig), why))
        }
    }
}

fn tape_cmd(p: &Prop, sub: &str, file: &str, cpu: u64) -> i32 {
    limit(RLIMIT_CORE, 0);
    limit(RLIMIT_AS, 8 << 30);
    soft_cpu(cpu);
    install_panic_hook();
    let Some(s) = p.subs.iter().find(|s| s.name == sub) else {
        println!("no sub-check {sub}");
        return 4;
    };
    let tape = tape_parse(&std::fs::read_to_string(file).unwrap_or_default());
    let run = s.run;
    let h = std::thread::Builder::new().stack_size(STACK).spawn(move || {
        let mut src = Src::from_tape(tape);
        let mut cov = Cov { quiet: true, ..Cov::default() };
        let r = run_case(run, &mut src, &mut cov);
        (r, src.used_tape())
    });
    match h.expect("spawn").join().expect("join") {
        (Outcome::Pass, _) => 0,
        (Outcome::Fail(m), t) => {
            println!("{}\n{}", tape_str(&t), m);
            3
        }
        (Outcome::Broken(m), _) => {
            println!("{m}");
            4
        }
    }
}

pub fn write_replay(prop: &str, sub: &str, tape: &[u64], msg: &str, debug_build: bool) -> String {
    let dir = format!("{}/replay", verif_dir());
    std::fs::create_dir_all(&dir).expect("replay dir");
    let h = hash_str(&format!("{sub}{tape:?}"));
    let path = format!("{dir}/{prop}-{:08x}.replay", h as u32);
    let t = format!(
        "property {prop}\nsub {sub}\nbuild {}\ntape {}\nmessage {}\n# replay with: bash /verif/run.sh replay {path}\n",
        if debug_build { "hdbg" } else { "hrel" },
        tape_str(tape),
        esc(msg)
    );
    std::fs::write(&path, t).expect("replay file");
    path
}

fn replay(file: &str) -> i32 {
    let t = std::fs::read_to_string(file).expect("replay file");
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let prop = get("property ");
    let sub = get("sub ");
    if let Some(r) = props::external_replay(&prop, &sub, &t, file) {
        return r;
    }
    let Some(p) = props::get(&prop) else { return 2 };
    let dir = work_dir();
    let me = std::env::current_exe().expect("exe").display().to_string();
    let r = match isolated(&me, p.id, &sub, &tape_parse(&get("tape ")), &dir) {
        Iso::Pass => {
            let after = get("after ");
            let mut w = after.split(' ');
            let (tier, seed) = (w.next().unwrap_or(""), w.next().and_then(|x| x.parse().ok()));
            match seed.map(|seed| phase(&me, &p, tier == "thorough", 1.0, seed, &dir)) {
                Some(Phase::Fail(_, f)) => {
                    println!("{}", f.msg);
                    println!("VIOLATION property={prop} replay={file}");
                    1
                }
                Some(Phase::Error(m)) => {
                    println!("harness error: {m}");
                    2
                }
                _ => {
                    println!("replay passes");
                    0
                }
            }
        }
        Iso::Fail(_, m) | Iso::Crash(m) => {
            println!("{m}");
            println!("VIOLATION property={prop} replay={file}");
            1
        }
        Iso::Broken(m) => {
            println!("harness error: {m}");
            2
        }
        Iso::Stuck => {
            println!("no result after {STUCK_CPU} s of processor time");
            println!("VIOLATION property={prop} replay={file}");
            1
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    r
}

pub struct Ev<'a> {
    pub id: &'a str,
    pub thorough: bool,
    pub seed: u64,
    pub rule: &'a str,
    pub assumptions: &'a [&'a str],
}

pub fn write_evidence(e: &Ev, s: &Summary, extra: &[(String, String)], wall: f64, violations: u64) {
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"nontrivial_cases\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
        jstr(e.id),
        jstr(if e.thorough { "thorough" } else { "quick" }),
        e.seed,
        s.evals,
        s.nontrivial,
        s.distinct,
        jstr(e.rule)
    );
    let _ = write!(
        o,
        "  \"samples\": [{}],\n",
        s.samples.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",\n   ")
    );
    let _ = write!(
        o,
        "  \"sub_checks\": {{{}}},\n",
        s.subs
            .iter()
            .map(|(n, ev, d)| format!("{}: {{\"evaluations\": {ev}, \"new_distinct_nontrivial\": {d}}}", jstr(n)))
            .collect::<Vec<_>>()
            .join(", ")
    );
    for (k, v) in extra {
        let _ = write!(o, "  {}: {},\n", jstr(k), v);
    }
    let _ = write!(
        o,
        "  \"classes\": {{{}}}\n }},\n",
        s.labels.iter().map(|(n, c)| format!("{}: {c}", jstr(n))).collect::<Vec<_>>().join(", ")
    );
    let _ = write!(
        o,
        " \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        e.assumptions.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", "),
        wall,
        violations
    );
    let dir = format!("{}/evidence", verif_dir());
    std::fs::create_dir_all(&dir).expect("evidence dir");
    std::fs::write(format!("{dir}/{}.json", e.id), o).expect("evidence");
}

struct PhaseFail {
    sub: String,
    tape: Vec<u64>,
    msg: String,
    /// the case fails on its own; otherwise only after the cases before it
    alone: bool,
}

enum Phase {
    Ok(Summary),
    Fail(Summary, PhaseFail),
    Error(String),
}

fn phase(bin: &str, p: &Prop, thorough: bool, scale: f64, seed: u64, dir: &str) -> Phase {
    use std::os::unix::process::ExitStatusExt;
    let journal = format!("{dir}/journal");
    let out = format!("{dir}/out");
    let _ = std::fs::remove_file(&out);
    let tier = if thorough { "thorough" } else { "quick" };
    let mut child = match Command::new(bin)
        .args(["worker", p.id, tier, &scale.to_string(), &seed.to_string(), &journal, &out])
        .spawn()
    {
        Ok(c) => c,
        Err(e) => return Phase::Error(format!("cannot start worker: {e}")),
    };
    let start = std::time::Instant::now();
    let max = if thorough { 3600 * 6 } else { 700 };
    let st = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {
                if start.elapsed().as_secs() > max {
                    let _ = child.kill();
                    let _ = child.wait();
                    return Phase::Error(format!("no answer within {max} s"));
                }
                std::thread::sleep(std::time::Duration::from_millis(20));
            }
            Err(e) => return Phase::Error(e.to_string()),
        }
    };
    if st.code() == Some(0) {
        let Some(s) = read_summary(&out) else { return Phase::Error("unreadable result".into()) };
        if let Some(b) = &s.broken {
            return Phase::Error(format!("harness error: {b}"));
        }
        if let Some((sub, tape, msg)) = s.fail.clone() {
            // the replay file must show the failure on its own
            let shows = |t: &[u64]| match isolated(bin, p.id, &sub, t, dir) {
                Iso::Fail(_, m) | Iso::Crash(m) => Some(m),
                Iso::Stuck => Some("no result".to_string()),
                _ => None,
            };
            if shows(&tape).is_some() {
                return Phase::Fail(s, PhaseFail { sub, tape, msg, alone: true });
            }
            let (tape, msg) = s.unshrunk.clone().unwrap_or((tape, msg));
            if let Some(m) = shows(&tape) {
                // what came before in the process misled the shrinking: shrink in fresh processes
                let start = std::time::Instant::now();
                let (tape, msg) = shrink(tape, m, 2000, |t| if start.elapsed().as_secs() > 60 { None } else { shows(t).map(|m| (t.to_vec(), m)) });
                return Phase::Fail(s, PhaseFail { sub, tape, msg, alone: true });
            }
            return Phase::Fail(s, PhaseFail { sub, tape, msg, alone: false });
        }
        return Phase::Ok(s);
    }
    if st.code() == Some(5) {
        // a case that seems not to end: confirm it on its own
        let t = std::fs::read_to_string(&out).unwrap_or_default();
        let f: Vec<u64> = t.trim().split('\t').skip(1).filter_map(|x| x.parse().ok()).collect();
        let [sub, idx] = f[..] else { return Phase::Error("unreadable result".into()) };
        let Some(s) = p.subs.get(sub as usize) else { return Phase::Error("unreadable result".into()) };
        let tape = match s.size {
            Size::Exhaustive(..) | Size::List(_) => Some(vec![idx]),
            Size::Random(..) => isolated_seeded(bin, p.id, s.name, seed, idx, dir),
        };
        let Some(tape) = tape else { return Phase::Error("a case does not end, and cannot be repeated".into()) };
        return match isolated(bin, p.id, s.name, &tape, dir) {
            Iso::Stuck => {
                let start = std::time::Instant::now();
                let msg = format!("no result after {STUCK_CPU} s of processor time, where milliseconds are usual");
                let (tape, msg) = shrink(tape, msg.clone(), 200, |t| {
                    if start.elapsed().as_secs() > 150 {
                        return None;
                    }
                    match isolated_for(bin, p.id, s.name, t, dir, 6) {
                        Iso::Stuck => Some((t.to_vec(), msg.clone())),
                        _ => None,
                    }
                });
                Phase::Fail(Summary { evals: idx + 1, ..Summary::default() }, PhaseFail { sub: s.name.into(), tape, msg, alone: true })
            }
            Iso::Fail(t, m) => Phase::Fail(Summary { evals: idx + 1, ..Summary::default() }, PhaseFail { sub: s.name.into(), tape: t, msg: m, alone: true }),
            Iso::Crash(m) => Phase::Fail(Summary { evals: idx + 1, ..Summary::default() }, PhaseFail { sub: s.name.into(), tape, msg: m, alone: true }),
            _ => Phase::Error(format!("case {idx} of {} took more than {} s, but ends on its own", s.name, STALL_MS / 1000)),
        };
    }
    let Some(sig) = st.signal() else {
        return Phase::Error(format!("worker exited with {:?}", st.code()));
    };
    if ![4, 6, 7, 11].contains(&sig) {
        return Phase::Error(format!("worker ended by signal {sig}"));
    }
    // a crash: find the case in the journal, confirm it in isolation, shrink it
    let j = std::fs::read(&journal).unwrap_or_default();
    let mut evals = 0;
    let mut found = None;
    for rec in j.chunks_exact(16) {
        let sub = u64::from_le_bytes(rec[..8].try_into().unwrap());
        let idx = u64::from_le_bytes(rec[8..].try_into().unwrap());
        if sub == 0 || sub as usize > p.subs.len() {
            continue;
        }
        let s = &p.subs[sub as usize - 1];
        evals = evals.max(idx + 1);
        if found.is_some() {
            continue;
        }
        // the tape of a fresh case is not known: record it by generating without running
        let tape = match s.size {
            Size::Exhaustive(..) | Size::List(_) => vec![idx],
            Size::Random(..) => match isolated_seeded(bin, p.id, s.name, seed, idx, dir) {
                Some(t) => t,
                None => continue,
            },
        };
        if let Iso::Crash(m) = isolated(bin, p.id, s.name, &tape, dir) {
            found = Some((s.name, tape, m));
        }
    }
    match found {
        None => Phase::Error(format!("worker killed by signal {sig}, not reproducible in isolation")),
        Some((sub, tape, msg)) => {
            let (tape, msg) = shrink(tape, msg, 400, |t| match isolated(bin, p.id, sub, t, dir) {
                Iso::Crash(m) => Some((t.to_vec(), m)),
                _ => None,
            });
            let s = Summary { evals, ..Summary::default() };
            Phase::Fail(s, PhaseFail { sub: sub.into(), tape, msg, alone: true })
        }
    }
}

/// Recover the tape of a crashing random case: random draws do not depend on the code under test
/// until the crash, so a generous prefix of the PRNG output is recorded by a child that writes each draw.
fn isolated_seeded(bin: &str, prop: &str, sub: &str, seed: u64, idx: u64, dir: &str) -> Option<Vec<u64>> {
    let tf = format!("{dir}/draws");
    let _ = std::fs::remove_file(&tf);
    let _ = Command::new(bin)
        .args(["draws", prop, sub, &seed.to_string(), &idx.to_string(), &tf])
        .output();
    let t = std::fs::read(&tf).ok()?;
    Some(t.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
}

fn draws_cmd(p: &Prop, sub: &str, seed: u64, idx: u64, file: &str) -> i32 {
    limit(RLIMIT_CORE, 0);
    limit(RLIMIT_AS, 8 << 30);
    soft_cpu(STUCK_CPU);
    install_panic_hook();
    let Some(s) = p.subs.iter().find(|s| s.name == sub) else { return 4 };
    let mut src = case_src(seed, s, idx);
    src.record_to(std::fs::File::create(file).expect("draws"));
    let run = s.run;
    let h = std::thread::Builder::new().stack_size(STACK).spawn(move || {
        let mut cov = Cov { quiet: true, ..Cov::default() };
        let _ = run_case(run, &mut src, &mut cov);
    });
    let _ = h.expect("spawn").join();
    0
}

fn check(p: &Prop, thorough: bool) -> i32 {
    let start = std::time::Instant::now();
    let seed = seed();
    let dir = work_dir();
    let me = std::env::current_exe().expect("exe").display().to_string();
    let ev = Ev { id: p.id, thorough, seed, rule: p.rule, assumptions: p.assumptions };
    // the checks that are quick anyway run more cases
    let cheap = ["C04", "C08", "C09", "C10", "C12", "C14", "C15", "C16", "C17", "C19", "C22", "C24"].contains(&p.id);
    let default = if cheap && !thorough { 2.5 } else { 1.0 };
    let scale: f64 = std::env::var("HARNESS_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(default);
    let mut extra = vec![];
    let r = phase(&me, p, thorough, scale, seed, &dir);
    let mut debug_build = false;
    let r = match r {
        Phase::Ok(s) => {
            if let (true, Ok(dbg)) = (p.debug_scale > 0.0, std::env::var("HARNESS_DEBUG_BIN")) {
                match phase(&dbg, p, thorough, scale * p.debug_scale, mix(seed, 0xdeb), &dir) {
                    Phase::Ok(d) => {
                        extra.push((
                            "unoptimised_build".to_string(),
                            format!("{{\"evaluations\": {}, \"distinct_nontrivial\": {}}}", d.evals, d.distinct),
                        ));
                        Phase::Ok(s)
                    }
                    Phase::Fail(_, f) => {
                        debug_build = true;
                        Phase::Fail(s, f)
                    }
                    e => e,
                }
            } else {
                Phase::Ok(s)
            }
        }
        x => x,
    };
    let _ = std::fs::remove_dir_all(&dir);
    let wall = start.elapsed().as_secs_f64();
    match r {
        Phase::Ok(s) => {
            write_evidence(&ev, &s, &extra, wall, 0);
            println!(
                "OK property={} evaluations={} distinct_nontrivial={} wall={wall:.1}s",
                p.id, s.evals, s.distinct
            );
            0
        }
        Phase::Fail(s, f) => {
            let path = write_replay(p.id, &f.sub, &f.tape, &f.msg, debug_build);
            if !f.alone {
                // replayed together with the cases before it
                let mut file = std::fs::OpenOptions::new().append(true).open(&path).expect("replay file");
                let _ = writeln!(file, "after {} {seed}", if thorough { "thorough" } else { "quick" });
            }
            write_evidence(&ev, &s, &extra, wall, 1);
            println!("{}/{}: {}", p.id, f.sub, f.msg);
            println!("VIOLATION property={} replay={path}", p.id);
            1
        }
        Phase::Error(m) => {
            println!("ERROR property={}: {m}", p.id);
            2
        }
    }
}

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let usage = || {
        eprintln!("usage: harness check PROP quick|thorough | replay FILE");
        2
    };
    let Some(cmd) = a.get(1) else { return usage() };
    if cmd == "replay" && a.len() == 3 {
        return replay(&a[2]);
    }
    if cmd == "constants" {
        print!("{}", crate::dict::listing());
        return 0;
    }
    if cmd == "list" {
        for id in props::IDS {
            println!("{id}");
        }
        return 0;
    }
    let Some(id) = a.get(2) else { return usage() };
    if cmd == "check" {
        let thorough = a.get(3).map(|s| s == "thorough").unwrap_or(false);
        if let Some(r) = props::external(id, thorough) {
            return r;
        }
        let Some(p) = props::get(id) else { return usage() };
        let r = check(&p, thorough);
        let _ = std::io::stdout().flush();
        return r;
    }
    let Some(p) = props::get(id) else { return usage() };
    match (cmd.as_str(), a.len()) {
        ("worker", 8) => worker(
            &p,
            a[3] == "thorough",
            a[4].parse().expect("scale"),
            a[5].parse().expect("seed"),
            &a[6],
            &a[7],
        ),
        ("tape", 6) => tape_cmd(&p, &a[3], &a[4], a[5].parse().expect("limit")),
        ("draws", 7) => draws_cmd(&p, &a[3], a[4].parse().expect("seed"), a[5].parse().expect("idx"), &a[6]),
        _ => usage(),
    }
}
