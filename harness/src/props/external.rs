//! Checks that need builds of their own: generated macro invocations (C18) and the same inputs
//! through several feature sets and profiles (C20).
use crate::driver::*;
use crate::engine::*;
use crate::gen;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::process::Command;

pub const C18_RULE: &str =
    "an identifier with at least one component (after the first two of an absolute one) of two or more base-128 digits; distinct by written text";
pub const C20_RULE: &str = "an input that parse_ber or parse_der accepts; distinct by bytes (each is described by every build)";

fn scratch() -> String {
    let d = format!("{}/work/run-{}", verif_dir(), std::process::id());
    std::fs::create_dir_all(&d).expect("work dir");
    d
}

struct Build {
    ok: bool,
    err: String,
}

/// cargo build of a probe crate; stderr is kept
fn cargo(probe: &str, target: &str, extra: &[String], env: &[(&str, &str)]) -> Build {
    let v = verif_dir();
    let mut c = Command::new("cargo");
    c.args(["build", "--offline", "--locked", "--manifest-path", &format!("{v}/probes/{probe}/Cargo.toml")])
        .args(extra)
        .env("CARGO_TARGET_DIR", target)
        .env("CARGO_TERM_COLOR", "never")
        .env_remove("RUSTFLAGS")
        .env_remove("CARGO_ENCODED_RUSTFLAGS");
    for (k, val) in env {
        c.env(k, val);
    }
    match c.output() {
        Ok(o) => Build { ok: o.status.success(), err: String::from_utf8_lossy(&o.stderr).to_string() },
        Err(e) => Build { ok: false, err: format!("cannot run cargo: {e}") },
    }
}

fn tail(s: &str, n: usize) -> String {
    let l: Vec<&str> = s.lines().collect();
    l[l.len().saturating_sub(n)..].join("\n")
}

// ------------------------------------------------------------------ C18

/// an identifier: relative or absolute, components as big-endian base-128 digits (minimal)
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
struct Id {
    rel: bool,
    comps: Vec<Vec<u8>>,
}

fn digits_to_decimal(d: &[u8]) -> String {
    // little-endian decimal digits, multiplied up
    let mut v: Vec<u8> = vec![0];
    for x in d {
        let mut carry = *x as u32;
        for k in v.iter_mut() {
            let t = *k as u32 * 128 + carry;
            *k = (t % 10) as u8;
            carry = t / 10;
        }
        while carry > 0 {
            v.push((carry % 10) as u8);
            carry /= 10;
        }
    }
    v.iter().rev().map(|d| (b'0' + d) as char).collect()
}
fn decimal_to_digits(s: &str) -> Vec<u8> {
    let mut v: Vec<u8> = vec![0]; // little-endian base 128
    for c in s.bytes() {
        let mut carry = (c.wrapping_sub(b'0') % 10) as u32;
        for k in v.iter_mut() {
            let t = *k as u32 * 10 + carry;
            *k = (t % 128) as u8;
            carry = t / 128;
        }
        while carry > 0 {
            v.push((carry % 128) as u8);
            carry /= 128;
        }
    }
    while v.len() > 1 && *v.last().unwrap_or(&1) == 0 {
        v.pop();
    }
    v.reverse();
    v
}
fn norm(d: &[u8]) -> Vec<u8> {
    let k = d.iter().take_while(|x| **x == 0).count().min(d.len().saturating_sub(1));
    if d.is_empty() {
        vec![0]
    } else {
        d[k..].to_vec()
    }
}
fn value(d: &[u8]) -> u64 {
    d.iter().fold(0u64, |a, x| a.saturating_mul(128).saturating_add(*x as u64))
}

impl Id {
    fn dotted(&self) -> String {
        self.comps.iter().map(|c| digits_to_decimal(c)).collect::<Vec<_>>().join(".")
    }
    fn text(&self) -> String {
        format!("{}{}", if self.rel { "rel " } else { "" }, self.dotted())
    }
    fn parse(t: &str) -> Id {
        let (rel, r) = match t.trim().strip_prefix("rel ") {
            Some(r) => (true, r),
            None => (false, t.trim()),
        };
        Id { rel, comps: r.split('.').map(decimal_to_digits).collect() }
    }
    /// X.690 8.19 / 8.20
    fn content(&self) -> Vec<u8> {
        let mut o = vec![];
        let rest = if self.rel {
            &self.comps[..]
        } else {
            o.push((value(&self.comps[0]) * 40 + value(&self.comps[1])) as u8);
            &self.comps[2..]
        };
        for c in rest {
            for (i, d) in c.iter().enumerate() {
                o.push(if i + 1 < c.len() { d | 0x80 } else { *d });
            }
        }
        o
    }
    fn valid(&self) -> bool {
        if self.rel {
            !self.comps.is_empty()
        } else {
            self.comps.len() >= 2 && value(&self.comps[0]) <= 2 && value(&self.comps[1]) < 40
        }
    }
    fn bits(d: &[u8]) -> usize {
        d.first().map_or(0, |f| 8 - f.leading_zeros() as usize) + 7 * d.len().saturating_sub(1)
    }
    /// fits the macro re-exported from asn1-rs (128-bit components; "rel" must not be followed by
    /// the line break with which rustc prints long token streams)
    fn small(&self) -> bool {
        self.comps.iter().all(|c| Id::bits(c) <= 128) && !(self.rel && self.dotted().len() > 50)
    }
    /// fits the iterator over 64-bit components (asn1-rs gives up at ten base-128 digits)
    fn fits64(&self) -> bool {
        self.comps.iter().all(|c| Id::bits(c) <= 63)
    }
    fn nontrivial(&self) -> bool {
        let skip = if self.rel { 0 } else { 2 };
        self.comps.iter().skip(skip).any(|c| c.len() >= 2)
    }
    fn cost(&self) -> (usize, usize, u64) {
        (self.comps.len(), self.comps.iter().map(|c| c.len()).sum(), self.comps.iter().flatten().map(|x| *x as u64).sum())
    }
}

fn pow2(k: usize) -> Vec<u8> {
    let mut v = vec![0u8; k / 7 + 1];
    v[0] = 1 << (k % 7);
    v
}
fn add1(d: &[u8]) -> Vec<u8> {
    let mut v = d.to_vec();
    for i in (0..v.len()).rev() {
        if v[i] < 127 {
            v[i] += 1;
            return v;
        }
        v[i] = 0;
    }
    v.insert(0, 1);
    v
}
fn sub1(d: &[u8]) -> Vec<u8> {
    let mut v = d.to_vec();
    for i in (0..v.len()).rev() {
        if v[i] > 0 {
            v[i] -= 1;
            return norm(&v);
        }
        v[i] = 127;
    }
    vec![0]
}
fn small_digits(n: u64) -> Vec<u8> {
    let mut v = vec![];
    let mut n = n;
    loop {
        v.insert(0, (n & 127) as u8);
        n >>= 7;
        if n == 0 {
            return v;
        }
    }
}

fn gen_comp(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[3, 3, 3, 2, 2]) {
        0 => small_digits(s.below(70_000)),
        1 => {
            let k = s.usize(200);
            let p = pow2(k);
            match s.below(3) {
                0 => p,
                1 => add1(&p),
                _ => sub1(&p),
            }
        }
        2 => {
            let n = s.range(1, 30);
            let v: Vec<u8> = (0..n).map(|_| s.below(128) as u8).collect();
            norm(&v)
        }
        3 => {
            // runs of zero and all-one groups
            let n = s.range(1, 24);
            let v: Vec<u8> = (0..n).map(|_| *s.pick(&[0u8, 127, 0, 127, 1, 64])).collect();
            norm(&v)
        }
        _ => small_digits(s.below(300)),
    }
}

fn gen_id(s: &mut Src) -> Id {
    let rel = s.chance(1, 2);
    let mut comps = vec![];
    if !rel {
        comps.push(small_digits(s.below(3)));
        comps.push(small_digits(s.below(40)));
    }
    let n = match s.weighted(&[12, 2, 1]) {
        0 => s.range(if rel { 1 } else { 0 }, 6),
        1 => s.range(7, 20),
        _ => s.range(21, 90),
    };
    for _ in 0..n {
        comps.push(gen_comp(s));
    }
    Id { rel, comps }
}

fn cases(seed: u64, n: usize, maxbits: usize) -> Vec<Id> {
    let mut v: BTreeSet<Id> = BTreeSet::new();
    // every (first, second) pair
    for a in 0..3u64 {
        for b in 0..40u64 {
            v.insert(Id { rel: false, comps: vec![small_digits(a), small_digits(b)] });
        }
    }
    // around every power of two: alone, relative; between zeros; absolute
    for k in 0..maxbits {
        let p = pow2(k);
        for d in [sub1(&p), p.clone(), add1(&p)] {
            v.insert(Id { rel: true, comps: vec![d.clone()] });
            v.insert(Id { rel: false, comps: vec![vec![1], vec![3], d.clone()] });
            v.insert(Id { rel: true, comps: vec![d.clone(), vec![0], d] });
        }
    }
    // every one-octet value and the octet-boundary values, in first, middle and last place
    for x in (0..256u64).chain((1..17).map(|i| i * 4096 - 1)).chain((1..17).map(|i| i * 16384)) {
        v.insert(Id { rel: true, comps: vec![small_digits(x)] });
        v.insert(Id { rel: false, comps: vec![vec![2], vec![39], small_digits(x), vec![1]] });
    }
    // component counts
    for c in 1..40 {
        v.insert(Id { rel: true, comps: vec![vec![127]; c] });
        v.insert(Id { rel: true, comps: vec![vec![0]; c] });
    }
    // long identifiers (encodings beyond 127, 128 and 255 octets) and very large components
    for c in [41usize, 50, 63, 64, 65, 85, 100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300] {
        v.insert(Id { rel: true, comps: (0..c).map(|k| small_digits((k as u64 * 37) % 300)).collect() });
        let mut comps = vec![vec![2], vec![(c % 40) as u8]];
        comps.extend((0..c).map(|k| small_digits((k as u64 * 5003) % 20_000)));
        v.insert(Id { rel: false, comps });
    }
    // constants of the source
    let d = crate::dict::get();
    for c in d.new.iter().chain(&d.old) {
        for x in [c.wrapping_sub(1), *c, c.wrapping_add(1)] {
            v.insert(Id { rel: true, comps: vec![small_digits(x)] });
            v.insert(Id { rel: false, comps: vec![vec![1], vec![3], small_digits(x), vec![1]] });
            if (2..400).contains(&x) {
                v.insert(Id { rel: true, comps: (0..x).map(|k| small_digits((k * 41) % 140)).collect() });
                let mut comps = vec![vec![1], vec![2]];
                comps.extend((2..x).map(|k| small_digits((k * 43) % 140)));
                v.insert(Id { rel: false, comps });
            }
        }
    }
    for k in [256usize, 257, 511, 512, 889, 890, 895, 896, 903, 1023, 1024, 1785, 1792, 2048] {
        let p = pow2(k);
        for d in [sub1(&p), p.clone(), add1(&p)] {
            v.insert(Id { rel: true, comps: vec![d.clone()] });
            v.insert(Id { rel: false, comps: vec![vec![2], vec![5], vec![1], d, vec![9]] });
        }
    }
    let mut i = 0;
    while v.len() < n {
        let mut s = Src::from_seed(mix(mix(seed, hash_str("oid")), i));
        v.insert(gen_id(&mut s));
        i += 1;
    }
    v.into_iter().collect()
}

/// written identifiers with no standard encoding in this scheme: must be refused at compile time
fn refused_cases() -> Vec<String> {
    let mut v = vec![];
    for a in 0..2 {
        for b in [40u64, 41, 47, 79, 80, 87, 88, 119, 127, 128, 175, 200, 255, 256, 257, 280, 295, 296, 1000, 65536, 65576] {
            v.push(format!("{a}.{b}.7"));
            v.push(format!("{a}.{b}"));
        }
    }
    for a in [1u64, 2, 5, 39] {
        v.push(format!("{a}"));
    }
    v
}

enum OidOut {
    /// case index -> what the macros gave; refused cases map to None
    Rows(BTreeMap<usize, Option<String>>),
    Error(String),
}

fn oid_build(ids: &[(usize, Id)], dir: &str) -> OidOut {
    let target = format!("{}/harness/target/probe-oid", verif_dir());
    let mut refused: BTreeSet<usize> = BTreeSet::new();
    for round in 0..4 {
        let mut t = String::from("pub fn all(v: &mut Vec<Row>) {\n");
        let live: Vec<&(usize, Id)> = ids.iter().filter(|(i, _)| !refused.contains(i)).collect();
        let chunks = live.len().div_ceil(200);
        for k in 0..chunks {
            let _ = writeln!(t, "f{k}(v);");
        }
        t.push_str("}\n");
        let mut line_of: BTreeMap<usize, usize> = BTreeMap::new();
        let mut line = 2 + chunks;
        for (k, c) in live.chunks(200).enumerate() {
            let _ = writeln!(t, "fn f{k}(v: &mut Vec<Row>) {{");
            line += 1;
            for (i, id) in c {
                let mut tlv = vec![];
                let content = id.content();
                gen::put_tag(&mut tlv, 0, false, if id.rel { 13 } else { 6 });
                gen::put_len(&mut tlv, content.len());
                tlv.extend(content);
                let d = id.text();
                let raw = if id.small() && !id.rel { format!("Some(oid!(raw {d}).to_vec())") } else { "None".into() };
                let oid = if id.small() { format!("Some(oid!({d}))") } else { "None".into() };
                let _ = writeln!(
                    t,
                    "v.push(Row {{ idx: {i}, lib: Some(der_oid_macro::encode_oid!({d}).to_vec()), raw: {raw}, oid: {oid}, tlv: &{tlv:?} }});"
                );
                line += 1;
                line_of.insert(line, *i);
            }
            t.push_str("}\n");
            line += 1;
        }
        let file = format!("{dir}/cases.rs");
        std::fs::write(&file, t).expect("cases");
        let b = cargo("oid", &target, &[], &[("OID_CASES", &file)]);
        if b.ok {
            let o = match Command::new(format!("{target}/debug/oidprobe")).output() {
                Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).to_string(),
                Ok(o) => return OidOut::Error(format!("probe: {:?} {}", o.status, String::from_utf8_lossy(&o.stderr))),
                Err(e) => return OidOut::Error(e.to_string()),
            };
            let mut m: BTreeMap<usize, Option<String>> = refused.iter().map(|i| (*i, None)).collect();
            for l in o.lines() {
                let (i, rest) = l.split_once(' ').unwrap_or((l, ""));
                if let Ok(i) = i.parse() {
                    m.insert(i, Some(rest.to_string()));
                }
            }
            return OidOut::Rows(m);
        }
        let before = refused.len();
        for w in b.err.split("cases.rs:").skip(1) {
            let n: String = w.chars().take_while(|c| c.is_ascii_digit()).collect();
            if let Some(i) = n.parse::<usize>().ok().and_then(|n| line_of.get(&n)) {
                refused.insert(*i);
            }
        }
        if refused.len() == before || round == 3 {
            return OidOut::Error(format!("the macro probe does not build:\n{}", tail(&b.err, 25)));
        }
    }
    OidOut::Error("unreachable".into())
}

fn expected_row(id: &Id, got: &str) -> Result<(), String> {
    let want = id.content().iter().map(|b| format!("{b:02x}")).collect::<String>();
    let dotted = id.dotted();
    let mut seen = BTreeSet::new();
    for f in got.split(' ') {
        let (k, v) = f.split_once('=').unwrap_or((f, ""));
        seen.insert(k.to_string());
        let name = match k {
            "m" => "encode_oid!",
            "r" => "oid!(raw ..)",
            "o" => "oid!(..).as_bytes()",
            "i" => "components of oid!(..)",
            "eq" => "oid!(..) == parsed identifier",
            _ => "components of the parsed identifier",
        };
        let exp = match k {
            "m" | "r" | "o" => want.clone(),
            "eq" => "true".into(),
            "i" | "p" => {
                if !id.fits64() {
                    if v == "-" {
                        continue;
                    }
                }
                if dotted == "0.0" && v == "0" {
                    // asn1-rs shows the one-octet identifier 00 as "0"
                    continue;
                }
                dotted.clone()
            }
            _ => continue,
        };
        if v != exp {
            return Err(format!("{name} for {}: {v}, expected {exp}", id.text()));
        }
    }
    if !seen.contains("m") || (id.small() && !(seen.contains("o") && seen.contains("eq"))) {
        return Err(format!("probe output for {} incomplete: {got}", id.text()));
    }
    Ok(())
}

/// failures among the ids, as (id, message)
fn oid_failures(ids: &[Id], dir: &str) -> Result<Vec<(Id, String)>, String> {
    let list: Vec<(usize, Id)> = ids.iter().cloned().enumerate().collect();
    match oid_build(&list, dir) {
        OidOut::Error(e) => Err(e),
        OidOut::Rows(m) => {
            let mut v = vec![];
            for (i, id) in ids.iter().enumerate() {
                match m.get(&i) {
                    Some(Some(row)) => {
                        if let Err(e) = expected_row(id, row) {
                            v.push((id.clone(), e));
                        }
                    }
                    Some(None) => v.push((id.clone(), format!("the macros refuse {}", id.text()))),
                    None => return Err(format!("no output for {}", id.text())),
                }
            }
            Ok(v)
        }
    }
}

/// build with only invocations that must be refused; returns those that were accepted
fn refuse_check(list: &[String], dir: &str) -> Result<Vec<String>, String> {
    let target = format!("{}/harness/target/probe-oid", verif_dir());
    let mut t = String::from("pub fn all(v: &mut Vec<Row>) {\n");
    for (i, d) in list.iter().enumerate() {
        let _ = writeln!(t, "v.push(Row {{ idx: {i}, lib: Some(der_oid_macro::encode_oid!({d}).to_vec()), raw: None, oid: None, tlv: &[6] }});");
    }
    t.push_str("}\n");
    let file = format!("{dir}/refuse.rs");
    std::fs::write(&file, t).expect("cases");
    let b = cargo("oid", &target, &[], &[("OID_CASES", &file)]);
    let mut hit = BTreeSet::new();
    for w in b.err.split("refuse.rs:").skip(1) {
        let n: String = w.chars().take_while(|c| c.is_ascii_digit()).collect();
        if let Ok(n) = n.parse::<usize>() {
            hit.insert(n);
        }
    }
    if !b.ok && hit.is_empty() {
        return Err(format!("the macro probe does not build:\n{}", tail(&b.err, 25)));
    }
    Ok(list.iter().enumerate().filter(|(i, _)| !hit.contains(&(i + 2))).map(|(_, d)| d.clone()).collect())
}

fn simpler(id: &Id) -> Vec<Id> {
    let mut v = BTreeSet::new();
    for i in 0..id.comps.len() {
        let mut c = id.clone();
        c.comps.remove(i);
        v.insert(c);
        let d = &id.comps[i];
        let mut put = |nd: Vec<u8>| {
            let mut c = id.clone();
            c.comps[i] = norm(&nd);
            if c.cost() < id.cost() {
                v.insert(c);
            }
        };
        put(vec![0]);
        put(vec![1]);
        for k in 0..d.len() {
            let mut x = d.clone();
            x.remove(k);
            put(x);
            for nv in [0, 1, d[k] / 2, d[k].saturating_sub(1)] {
                let mut x = d.clone();
                x[k] = nv;
                put(x);
            }
        }
    }
    v.into_iter().filter(|c| c.valid() && c != id).collect()
}

fn c18(thorough: bool) -> i32 {
    let start = std::time::Instant::now();
    let dir = scratch();
    let seed = seed();
    let r = c18_run(thorough, seed, &dir, start);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn c18_run(thorough: bool, seed: u64, dir: &str, start: std::time::Instant) -> i32 {
    let ids = cases(seed, if thorough { 60_000 } else { 8_000 }, if thorough { 600 } else { 260 });
    let refuse = refused_cases();
    let ev = Ev {
        id: "C18",
        thorough,
        seed,
        rule: C18_RULE,
        assumptions: &[
            "the base-128 reference encoder in harness/src/props/external.rs is right",
            "oid! (from asn1-rs, a dependency) takes components of up to 128 bits and relative identifiers of up to about 70 characters; others are only given to encode_oid!",
            "asn1-rs, a dependency, reads the identifier 0.0 (content 00) as the single component 0, and does not iterate components of 64 bits or more",
        ],
    };
    let nt: Vec<&Id> = ids.iter().filter(|i| i.nontrivial()).collect();
    let mut s = Summary { evals: (ids.len() + refuse.len()) as u64, nontrivial: nt.len() as u64, distinct: nt.len() as u64, ..Summary::default() };
    s.subs = vec![("oid".into(), ids.len() as u64, nt.len() as u64), ("refused".into(), refuse.len() as u64, 0)];
    let step = (nt.len() / 10).max(1);
    s.samples = nt.iter().step_by(step).map(|i| i.text()).collect();
    s.labels.insert("relative".into(), ids.iter().filter(|i| i.rel).count() as u64);
    s.labels.insert("absolute".into(), ids.iter().filter(|i| !i.rel).count() as u64);
    s.labels.insert("component of 64 bits or more".into(), ids.iter().filter(|i| !i.fits64()).count() as u64);
    s.labels.insert("given to encode_oid! only".into(), ids.iter().filter(|i| !i.small()).count() as u64);
    s.labels.insert("component 0 after the first two".into(), ids.iter().filter(|i| i.comps.iter().skip(if i.rel { 0 } else { 2 }).any(|c| *c == [0])).count() as u64);
    let mut fails = vec![];
    for part in ids.chunks(10_000) {
        match oid_failures(part, dir) {
            Err(e) => {
                println!("ERROR property=C18: {e}");
                return 2;
            }
            Ok(f) => fails.extend(f),
        }
        if !fails.is_empty() {
            break;
        }
    }
    let mut verdict = None;
    if let Some((mut id, mut msg)) = fails.into_iter().min_by_key(|(i, _)| i.cost()) {
        for _ in 0..12 {
            let c = simpler(&id);
            if c.is_empty() {
                break;
            }
            match oid_failures(&c, dir) {
                Ok(f) => match f.into_iter().min_by_key(|(i, _)| i.cost()) {
                    Some((i, m)) => {
                        id = i;
                        msg = m;
                    }
                    None => break,
                },
                Err(_) => break,
            }
        }
        verdict = Some(("oid", id.text(), msg));
    } else {
        match refuse_check(&refuse, dir) {
            Err(e) => {
                println!("ERROR property=C18: {e}");
                return 2;
            }
            Ok(acc) => {
                if let Some(d) = acc.into_iter().next() {
                    let m = format!("encode_oid!({d}) is accepted, although it has no encoding in this scheme");
                    verdict = Some(("refused", d, m));
                }
            }
        }
    }
    let wall = start.elapsed().as_secs_f64();
    match verdict {
        None => {
            write_evidence(&ev, &s, &[], wall, 0);
            println!("OK property=C18 evaluations={} distinct_nontrivial={} wall={wall:.1}s", s.evals, s.distinct);
            0
        }
        Some((sub, case, msg)) => {
            let path = ext_replay("C18", sub, &[("case", &case)], &msg);
            write_evidence(&ev, &s, &[], wall, 1);
            println!("C18/{sub}: {msg}");
            println!("VIOLATION property=C18 replay={path}");
            1
        }
    }
}

fn ext_replay(prop: &str, sub: &str, kv: &[(&str, &str)], msg: &str) -> String {
    let dir = format!("{}/replay", verif_dir());
    std::fs::create_dir_all(&dir).expect("replay dir");
    let path = format!("{dir}/{prop}-{:08x}.replay", hash_str(&format!("{sub}{kv:?}")) as u32);
    let mut t = format!("property {prop}\nsub {sub}\n");
    for (k, v) in kv {
        let _ = writeln!(t, "{k} {v}");
    }
    let _ = writeln!(t, "message {}\n# replay with: bash /verif/run.sh replay {path}", msg.replace('\n', " / "));
    std::fs::write(&path, t).expect("replay file");
    path
}

// ------------------------------------------------------------------ C20

#[derive(Clone)]
struct Config {
    name: String,
    release: bool,
    features: &'static str,
}

fn configs(thorough: bool) -> Vec<Config> {
    let quick = ["", "std", "bigint", "std,as_bitvec", "serialize", "std,bigint,as_bitvec,serialize,unstable"];
    let all = [
        "",
        "std",
        "bigint",
        "as_bitvec",
        "serialize",
        "unstable",
        "std,bigint",
        "std,as_bitvec",
        "bigint,as_bitvec",
        "std,bigint,as_bitvec",
        "bigint,serialize",
        "as_bitvec,serialize",
        "bigint,as_bitvec,serialize",
        "std,unstable",
        "std,bigint,as_bitvec,serialize,unstable",
    ];
    let l: &[&'static str] = if thorough { &all } else { &quick };
    let mut v = vec![];
    for release in [false, true] {
        for f in l {
            v.push(Config {
                name: format!("{}/[{}]", if release { "release" } else { "debug" }, f),
                release,
                features: f,
            });
        }
    }
    v
}

enum Feat {
    Bin(String),
    /// der-parser itself does not compile in this configuration
    NoBuild(String),
    Error(String),
}

fn build_config(i: usize, c: &Config, dir: &str) -> Feat {
    let target = format!("{}/harness/target/probe-feat-{}", verif_dir(), if c.release { "rel" } else { "dbg" });
    let mut a: Vec<String> = vec![];
    if c.release {
        a.push("--release".into());
    }
    if !c.features.is_empty() {
        a.push("--features".into());
        a.push(c.features.into());
    }
    let b = cargo("feat", &target, &a, &[]);
    if !b.ok {
        if b.err.contains("could not compile `der-parser`") {
            return Feat::NoBuild(tail(&b.err, 25));
        }
        return Feat::Error(tail(&b.err, 25));
    }
    let bin = format!("{dir}/feat{i}");
    match std::fs::copy(format!("{target}/{}/featprobe", if c.release { "release" } else { "debug" }), &bin) {
        Ok(_) => Feat::Bin(bin),
        Err(e) => Feat::Error(e.to_string()),
    }
}

/// digests of all inputs in one configuration; None = the process died
fn describe(bin: &str, inputs: &[Vec<u8>], file: &str) -> Result<Option<Vec<[String; 4]>>, String> {
    use std::os::unix::process::ExitStatusExt;
    let t: String = inputs.iter().map(|v| v.iter().map(|b| format!("{b:02x}")).collect::<String>() + "\n").collect();
    std::fs::write(file, t).map_err(|e| e.to_string())?;
    let o = Command::new("timeout").args(["-s", "KILL", "300", bin, file]).output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        let sig = o.status.signal().or(o.status.code().map(|c| c - 128)).unwrap_or(0);
        if [4, 6, 7, 11].contains(&sig) {
            return Ok(None);
        }
        return Err(format!("probe ended with {:?}: {}", o.status, tail(&String::from_utf8_lossy(&o.stderr), 5)));
    }
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    let rows: Vec<[String; 4]> = out
        .lines()
        .map(|l| {
            let mut it = l.split(' ').map(|s| s.to_string());
            std::array::from_fn(|_| it.next().unwrap_or_default())
        })
        .collect();
    if rows.len() != inputs.len() {
        return Err(format!("probe described {} of {} inputs", rows.len(), inputs.len()));
    }
    Ok(Some(rows))
}

const COLS: [&str; 4] = ["the common results", "the encoded bytes", "the big integers", "the bit slices"];

/// indices (and message) of inputs on which two configurations differ
fn differences(bins: &[(String, String)], inputs: &[Vec<u8>], dir: &str) -> Result<Vec<(usize, usize, usize, usize)>, String> {
    let mut first: Vec<[Option<(usize, String)>; 4]> = vec![[const { None }; 4]; inputs.len()];
    let mut v = vec![];
    for (k, (_, bin)) in bins.iter().enumerate() {
        let rows = match describe(bin, inputs, &format!("{dir}/inputs"))? {
            Some(r) => r,
            None if inputs.len() == 1 => vec![std::array::from_fn(|_| "CRASH".to_string())],
            None => {
                // bisect to the input that kills the process
                let mut part = inputs.to_vec();
                let mut base = 0;
                while part.len() > 1 {
                    let h = part.len() / 2;
                    if describe(bin, &part[..h], &format!("{dir}/inputs"))?.is_none() {
                        part.truncate(h);
                    } else {
                        part.drain(..h);
                        base += h;
                    }
                }
                let mut d = differences(bins, &part, dir)?;
                for x in d.iter_mut() {
                    x.0 += base;
                }
                if d.is_empty() {
                    return Err(format!("every build dies on {}", gen::hex(&part[0])));
                }
                return Ok(d);
            }
        };
        for (i, r) in rows.into_iter().enumerate() {
            for (c, d) in r.into_iter().enumerate() {
                if d == "-" {
                    continue;
                }
                match &first[i][c] {
                    None => first[i][c] = Some((k, d)),
                    Some((j, e)) if *e != d => v.push((i, *j, k, c)),
                    _ => {}
                }
            }
        }
    }
    v.sort();
    Ok(v)
}

fn show_difference(bins: &[(String, String)], input: &[u8], d: (usize, usize, usize, usize), dir: &str) -> String {
    let file = format!("{dir}/inputs");
    let _ = std::fs::write(&file, input.iter().map(|b| format!("{b:02x}")).collect::<String>() + "\n");
    let get = |k: usize| {
        let o = Command::new(&bins[k].1).args([&file, "show", "0"]).output();
        o.map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default()
    };
    let (a, b) = (get(d.1), get(d.2));
    let mut m = format!("{} differ between {} and {}", COLS[d.3], bins[d.1].0, bins[d.2].0);
    for (x, y) in a.split(';').zip(b.split(';')) {
        if x != y {
            let cut = |s: &str| s.chars().take(200).collect::<String>();
            m += &format!(": '{}' against '{}'", cut(x), cut(y));
            break;
        }
    }
    m
}

fn c20_inputs(seed: u64, n: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    // all one- and many two-octet inputs
    for i in 0..257 {
        v.push(gen::short(i));
    }
    // long contents and many members
    for c in gen::large_codes(false) {
        let b = gen::large_upto(c, 5000);
        v.extend(b);
    }
    // nesting around the limit
    for d in 45..=54usize {
        for indef in [false, true] {
            let mut b = vec![5u8, 0];
            for k in 0..d - 1 {
                let t = 0x30 + (k % 3 == 1) as u8;
                if indef {
                    b.splice(0..0, [t, 0x80]);
                    b.extend([0, 0]);
                } else {
                    b = gen::tlv(0, true, (t & 0x1f) as u32, &b);
                }
            }
            v.push(b);
        }
    }
    let n = n + v.len();
    let mut i = 0u64;
    while v.len() < n {
        let mut s = Src::from_seed(mix(mix(seed, hash_str("feat")), i));
        i += 1;
        v.push(match i % 8 {
            // integers and bit strings of every size (arithmetic lives there)
            0 => {
                let der = s.chance(1, 2);
                let c = gen::int_content(&mut s, der);
                gen::tlv(0, false, *s.pick(&[2u32, 10]), &c)
            }
            1 => {
                let c = gen::bit_content(&mut s);
                gen::tlv(0, false, 3, &c)
            }
            2 => {
                let g = s.chance(1, 2);
                let bad = s.chance(1, 3);
                let c = gen::time_content(&mut s, g, false, bad);
                gen::tlv(0, false, if g { 24 } else { 23 }, &c)
            }
            k => gen::input(&mut s, k >= 6),
        });
    }
    v
}

fn with_bins<T>(thorough: bool, dir: &str, f: impl FnOnce(&[(String, String)]) -> T) -> Result<T, (bool, String, String)> {
    let cs = configs(thorough);
    let (a, b): (Vec<_>, Vec<_>) = cs.iter().cloned().enumerate().partition(|(_, c)| !c.release);
    let run = |l: &[(usize, Config)]| l.iter().map(|(i, c)| (c.name.clone(), build_config(*i, c, dir))).collect::<Vec<_>>();
    let (ra, rb) = std::thread::scope(|s| {
        let h = s.spawn(|| run(&a));
        let rb = run(&b);
        (h.join().expect("build thread"), rb)
    });
    let mut bins = vec![];
    let mut nobuild = vec![];
    for (name, r) in ra.into_iter().chain(rb) {
        match r {
            Feat::Bin(p) => bins.push((name, p)),
            Feat::NoBuild(e) => nobuild.push((name, e)),
            Feat::Error(e) => return Err((false, name, e)),
        }
    }
    if let Some((name, e)) = nobuild.into_iter().next() {
        // a difference between configurations only if some of them do build
        return Err((!bins.is_empty(), name, e));
    }
    Ok(f(&bins))
}

fn c20(thorough: bool) -> i32 {
    let start = std::time::Instant::now();
    let dir = scratch();
    let r = c20_run(thorough, seed(), &dir, start, None);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn c20_run(thorough: bool, seed: u64, dir: &str, start: std::time::Instant, only: Option<Vec<u8>>) -> i32 {
    let replaying = only.is_some();
    let inputs = match only {
        Some(i) => vec![i],
        None => c20_inputs(seed, if thorough { 400_000 } else { 40_000 }),
    };
    let ev = Ev {
        id: "C20",
        thorough,
        seed,
        rule: C20_RULE,
        assumptions: &["only 64-bit Linux builds with the installed compiler are compared", "std's own behaviour does not depend on the profile"],
    };
    let mut s = Summary::default();
    let mut distinct = std::collections::HashSet::new();
    for i in &inputs {
        let ok = std::panic::catch_unwind(|| der_parser::ber::parse_ber(i).is_ok() || der_parser::der::parse_der(i).is_ok()).unwrap_or(true);
        if ok {
            s.nontrivial += 1;
            if distinct.insert(i.clone()) && distinct.len() % 1500 == 1 && s.samples.len() < 12 {
                s.samples.push(gen::hex(i));
            }
        }
    }
    s.distinct = distinct.len() as u64;
    let r = with_bins(thorough, dir, |bins| -> Result<Option<(Vec<u8>, String)>, String> {
        s.evals = (inputs.len() * bins.len()) as u64;
        s.labels.insert("builds".into(), bins.len() as u64);
        s.labels.insert("inputs".into(), inputs.len() as u64);
        for part in inputs.chunks(20_000) {
            let d = differences(bins, part, dir)?;
            let Some(mut diff) = d.iter().min_by_key(|d| part[d.0].len()).copied() else { continue };
            let mut best = part[diff.0].clone();
            // shrink in batches: all one-step simplifications at once, with the two builds that differ
            let pair = [bins[diff.1].clone(), bins[diff.2].clone()];
            for _ in 0..200 {
                let mut cand: BTreeSet<(usize, Vec<u8>)> = BTreeSet::new();
                for k in 0..best.len() {
                    for n in [1usize, 2, 4, 8, 16] {
                        if k + n <= best.len() {
                            let mut c = best.clone();
                            c.drain(k..k + n);
                            cand.insert((c.len(), c));
                        }
                    }
                    for nv in [0, 1, best[k] / 2] {
                        if nv < best[k] {
                            let mut c = best.clone();
                            c[k] = nv;
                            cand.insert((c.len(), c));
                        }
                    }
                }
                let list: Vec<Vec<u8>> = cand.into_iter().map(|x| x.1).collect();
                if list.is_empty() {
                    break;
                }
                let d = differences(&pair, &list, dir)?;
                match d.first() {
                    Some(x) => {
                        best = list[x.0].clone();
                        diff.3 = x.3;
                    }
                    None => break,
                }
            }
            let msg = show_difference(bins, &best, diff, dir);
            return Ok(Some((best, msg)));
        }
        Ok(None)
    });
    let wall = start.elapsed().as_secs_f64();
    let fail = match r {
        Err((true, name, e)) => Some((vec![], Some(name.clone()), format!("the crate does not build as {name}, although it does with other features or profile: {e}"))),
        Err((false, name, e)) => {
            println!("ERROR property=C20: the probe does not build as {name}:\n{e}");
            return 2;
        }
        Ok(Err(e)) => {
            println!("ERROR property=C20: {e}");
            return 2;
        }
        Ok(Ok(None)) => None,
        Ok(Ok(Some((i, m)))) => Some((i, None, m)),
    };
    match fail {
        None => {
            if replaying {
                println!("replay passes");
                return 0;
            }
            write_evidence(&ev, &s, &[], wall, 0);
            println!("OK property=C20 evaluations={} distinct_nontrivial={} wall={wall:.1}s", s.evals, s.distinct);
            0
        }
        Some((input, cfg, msg)) => {
            let msg = if cfg.is_some() { msg } else { format!("input {}: {msg}", gen::hex(&input)) };
            println!("C20/builds: {msg}");
            if replaying {
                return 1;
            }
            let hex: String = input.iter().map(|b| format!("{b:02x}")).collect();
            let path = ext_replay("C20", "builds", &[("input", &hex)], &msg);
            write_evidence(&ev, &s, &[], wall, 1);
            println!("VIOLATION property=C20 replay={path}");
            1
        }
    }
}

// ------------------------------------------------------------------ entry points

pub fn external(id: &str, thorough: bool) -> Option<i32> {
    match id {
        "C18" => Some(c18(thorough)),
        "C20" => Some(c20(thorough)),
        _ => None,
    }
}

pub fn external_replay(id: &str, sub: &str, text: &str, file: &str) -> Option<i32> {
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let start = std::time::Instant::now();
    let r = match (id, sub) {
        ("C18", "oid") => {
            let dir = scratch();
            let r = oid_failures(&[Id::parse(&get("case "))], &dir);
            let _ = std::fs::remove_dir_all(&dir);
            match r {
                Err(e) => {
                    println!("{e}");
                    2
                }
                Ok(f) => match f.first() {
                    None => {
                        println!("replay passes");
                        0
                    }
                    Some((_, m)) => {
                        println!("{m}");
                        1
                    }
                },
            }
        }
        ("C18", _) => {
            let dir = scratch();
            let c = get("case ");
            let r = refuse_check(&[c.clone()], &dir);
            let _ = std::fs::remove_dir_all(&dir);
            match r {
                Err(e) => {
                    println!("{e}");
                    2
                }
                Ok(v) if v.is_empty() => {
                    println!("replay passes");
                    0
                }
                Ok(_) => {
                    println!("encode_oid!({c}) is accepted");
                    1
                }
            }
        }
        ("C20", _) => {
            let h = get("input ");
            let v: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(h.get(2 * i..2 * i + 2).unwrap_or("0"), 16).unwrap_or(0)).collect();
            let dir = scratch();
            let r = c20_run(true, 0, &dir, start, Some(v));
            let _ = std::fs::remove_dir_all(&dir);
            r
        }
        _ => return None,
    };
    if r == 1 {
        println!("VIOLATION property={id} replay={file}");
    }
    Some(r)
}
