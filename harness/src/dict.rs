//! Dictionary of the constants written in the library's source, as fuzzers extract it from a binary.
//!
//! The values steer generation only (lengths, counts, tag numbers, numbers, text): what a case
//! requires never depends on them, and a replay file contains the values themselves.  Constants that
//! are not in the committed list of known ones are tried more often.
use std::collections::BTreeSet;
use std::sync::OnceLock;

pub struct Dict {
    pub new: Vec<u64>,
    pub old: Vec<u64>,
    pub new_bytes: Vec<Vec<u8>>,
    pub old_bytes: Vec<Vec<u8>>,
}

const KNOWN: &str = include_str!("known_constants.txt");

fn repo() -> String {
    std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into())
}

fn files(dir: &str, out: &mut Vec<String>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut names: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    names.sort();
    for p in names {
        let s = p.display().to_string();
        if p.is_dir() {
            files(&s, out);
        } else if s.ends_with(".rs") {
            out.push(s);
        }
    }
}

#[derive(PartialEq, Clone, Debug)]
enum Tok {
    Num(u64),
    Op(char),
    Shl,
    Other,
}

fn escapes(raw: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < raw.len() {
        if raw[i] != b'\\' || i + 1 >= raw.len() {
            o.push(raw[i]);
            i += 1;
            continue;
        }
        match raw[i + 1] {
            b'n' => o.push(10),
            b't' => o.push(9),
            b'r' => o.push(13),
            b'0' => o.push(0),
            b'x' if i + 3 < raw.len() => {
                let h = std::str::from_utf8(&raw[i + 2..i + 4]).unwrap_or("0");
                o.push(u8::from_str_radix(h, 16).unwrap_or(0));
                i += 2;
            }
            b'u' => {
                if let Some(e) = raw[i..].iter().position(|&b| b == b'}') {
                    let h = String::from_utf8_lossy(&raw[(i + 3).min(i + e)..i + e]).to_string();
                    if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                        o.extend(c.to_string().bytes());
                    }
                    i += e - 1;
                }
            }
            c => o.push(c),
        }
        i += 2;
    }
    o
}

fn scan(text: &str, nums: &mut BTreeSet<u64>, bytes: &mut BTreeSet<Vec<u8>>) {
    let b = text.as_bytes();
    let mut toks = vec![];
    let mut i = 0;
    let ident = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    while i < b.len() {
        let c = b[i];
        if b[i..].starts_with(b"//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if b[i..].starts_with(b"/*") {
            i += 2;
            while i < b.len() && !b[i..].starts_with(b"*/") {
                i += 1;
            }
            i += 2;
        } else if c == b'"' {
            let s = i + 1;
            i = s;
            while i < b.len() && b[i] != b'"' {
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            let v = escapes(&b[s..i.min(b.len())]);
            if !v.is_empty() && v.len() <= 64 {
                bytes.insert(v);
            }
            i += 1;
            toks.push(Tok::Other);
        } else if c == b'\'' {
            // a character, or a lifetime
            let j = if i + 1 < b.len() && b[i + 1] == b'\\' {
                b[i + 2..].iter().take(10).position(|&x| x == b'\'').map(|k| i + 2 + k).filter(|_| true)
            } else {
                let w = text[i + 1..].chars().next().map_or(1, |c| c.len_utf8());
                (b.get(i + 1 + w) == Some(&b'\'')).then_some(i + 1 + w)
            };
            match j {
                Some(mut j) => {
                    if b[i + 1] == b'\\' && b.get(i + 2) == Some(&b'\'') {
                        j = i + 3;
                    }
                    let v = escapes(&b[i + 1..j.min(b.len())]);
                    if let Some(ch) = std::str::from_utf8(&v).ok().and_then(|s| s.chars().next()) {
                        nums.insert(ch as u64);
                    }
                    bytes.insert(v);
                    i = j + 1;
                }
                None => i += 1,
            }
            toks.push(Tok::Other);
        } else if c.is_ascii_digit() && (i == 0 || !ident(b[i - 1])) {
            let s = i;
            while i < b.len() && ident(b[i]) {
                i += 1;
            }
            let t: String = text[s..i].chars().filter(|&c| c != '_').collect();
            let t = t.to_lowercase();
            let (radix, digits) = match t.get(..2) {
                Some("0x") => (16, &t[2..]),
                Some("0b") => (2, &t[2..]),
                Some("0o") => (8, &t[2..]),
                _ => (10, &t[..]),
            };
            let mut cut = digits;
            for suf in ["usize", "isize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8"] {
                if let Some(x) = digits.strip_suffix(suf) {
                    cut = x;
                    break;
                }
            }
            match u64::from_str_radix(cut, radix) {
                Ok(v) => toks.push(Tok::Num(v)),
                Err(_) => toks.push(Tok::Other),
            }
        } else if ident(c) {
            let s = i;
            while i < b.len() && ident(b[i]) {
                i += 1;
            }
            let max = match &text[s..i] {
                "u8" => Some((u8::MAX as u64, 0)),
                "i8" => Some((i8::MAX as u64, 1)),
                "u16" => Some((u16::MAX as u64, 0)),
                "i16" => Some((i16::MAX as u64, 1)),
                "u32" => Some((u32::MAX as u64, 0)),
                "i32" => Some((i32::MAX as u64, 1)),
                "i64" => Some((i64::MAX as u64, 1)),
                _ => None,
            };
            if let Some((v, _)) = max {
                if b[i..].starts_with(b"::MAX") {
                    toks.push(Tok::Num(v));
                    i += 5;
                    continue;
                }
                // a narrowing cast: the values where it wraps
                if text[..s].ends_with("as ") {
                    nums.insert(v);
                    nums.insert(v + 1);
                }
            }
            toks.push(Tok::Other);
        } else if b[i..].starts_with(b"<<") {
            toks.push(Tok::Shl);
            i += 2;
        } else if c.is_ascii_whitespace() {
            i += 1;
        } else {
            toks.push(Tok::Op(c as char));
            i += 1;
        }
    }
    for t in &toks {
        if let Tok::Num(v) = t {
            nums.insert(*v);
        }
    }
    for w in toks.windows(3) {
        if let [Tok::Num(a), op, Tok::Num(c)] = w {
            let v = match op {
                Tok::Shl if *c < 64 => Some(a << c),
                Tok::Op('*') => a.checked_mul(*c),
                Tok::Op('+') => a.checked_add(*c),
                Tok::Op('-') => a.checked_sub(*c),
                _ => None,
            };
            nums.extend(v);
        }
    }
    // octet arrays
    let mut run = vec![];
    for t in toks.iter().chain([&Tok::Other]) {
        match t {
            Tok::Num(v) if *v < 256 => run.push(*v as u8),
            Tok::Op(',') => {}
            _ => {
                if run.len() >= 2 && run.len() <= 64 {
                    bytes.insert(run.clone());
                }
                run.clear();
            }
        }
    }
}

/// everything before the test module
fn without_tests(t: &str) -> &str {
    match t.find("#[cfg(test)]") {
        Some(k) => &t[..k],
        None => t,
    }
}

fn collect() -> (BTreeSet<u64>, BTreeSet<Vec<u8>>) {
    let (mut n, mut by) = (BTreeSet::new(), BTreeSet::new());
    let mut fs = vec![];
    files(&format!("{}/src", repo()), &mut fs);
    files(&format!("{}/der-oid-macro/src", repo()), &mut fs);
    for f in fs {
        if let Ok(t) = std::fs::read_to_string(&f) {
            scan(without_tests(&t), &mut n, &mut by);
        }
    }
    (n, by)
}

fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// the committed list
pub fn listing() -> String {
    let (n, by) = collect();
    let mut o = String::new();
    for x in n {
        o.push_str(&format!("{x}\n"));
    }
    for x in by {
        o.push_str(&format!("={}\n", hexs(&x)));
    }
    o
}

pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let known: BTreeSet<&str> = KNOWN.lines().collect();
        let (n, by) = collect();
        let mut d = Dict { new: vec![], old: vec![], new_bytes: vec![], old_bytes: vec![] };
        for x in n {
            if known.contains(x.to_string().as_str()) {
                d.old.push(x)
            } else {
                d.new.push(x)
            }
        }
        for x in by {
            if known.contains(format!("={}", hexs(&x)).as_str()) {
                d.old_bytes.push(x)
            } else {
                d.new_bytes.push(x)
            }
        }
        // keep the number of tries bounded whatever the source looks like
        d.new.truncate(200);
        d.new_bytes.truncate(200);
        d
    })
}
