//! Generators of BER/DER inputs.
use crate::engine::Src;
use crate::refm::*;

#[derive(Clone, Copy)]
pub struct Cfg {
    /// per-mille probability, per element, of deviating from a valid encoding
    pub fault: u64,
    /// only definite minimal lengths, minimal tags, DER values
    pub der: bool,
    /// maximum nesting of generated containers
    pub depth: usize,
    /// allow elements of non-universal classes
    pub other_class: bool,
}

pub const BER: Cfg = Cfg { fault: 0, der: false, depth: 5, other_class: true };
pub const BER_FAULTY: Cfg = Cfg { fault: 60, der: false, depth: 5, other_class: true };
pub const DER: Cfg = Cfg { fault: 0, der: true, depth: 5, other_class: true };
pub const DER_FAULTY: Cfg = Cfg { fault: 60, der: true, depth: 5, other_class: true };

pub fn put_tag(out: &mut Vec<u8>, class: u8, cons: bool, tag: u32) {
    let b0 = (class << 6) | if cons { 0x20 } else { 0 };
    if tag < 31 {
        out.push(b0 | tag as u8);
    } else {
        out.push(b0 | 0x1f);
        put_base128(out, tag as u128);
    }
}

pub fn put_base128(out: &mut Vec<u8>, v: u128) {
    let mut tmp = vec![(v & 0x7f) as u8];
    let mut v = v >> 7;
    while v > 0 {
        tmp.push(0x80 | (v & 0x7f) as u8);
        v >>= 7;
    }
    tmp.reverse();
    out.extend(tmp);
}

pub fn put_len(out: &mut Vec<u8>, l: usize) {
    if l < 128 {
        out.push(l as u8);
    } else {
        let b: Vec<u8> = (l as u64).to_be_bytes().iter().copied().skip_while(|&x| x == 0).collect();
        out.push(0x80 | b.len() as u8);
        out.extend(b);
    }
}

pub fn put_len_padded(out: &mut Vec<u8>, l: usize, extra: usize) {
    let b: Vec<u8> = (l as u64).to_be_bytes().iter().copied().skip_while(|&x| x == 0).collect();
    let n = (b.len() + extra).clamp(1, 126);
    out.push(0x80 | n as u8);
    out.extend(std::iter::repeat(0).take(n - b.len()));
    out.extend(b);
}

pub fn tlv(class: u8, cons: bool, tag: u32, content: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    put_tag(&mut o, class, cons, tag);
    put_len(&mut o, content.len());
    o.extend_from_slice(content);
    o
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 96 {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{x:02x}"));
    }
    s
}

/// Minimal two's-complement octets of v
pub fn int_octets(v: i128) -> Vec<u8> {
    let b = v.to_be_bytes();
    let mut k = 0;
    while k < 15 && ((b[k] == 0 && b[k + 1] < 0x80) || (b[k] == 0xff && b[k + 1] >= 0x80)) {
        k += 1;
    }
    b[k..].to_vec()
}

/// an integer value concentrated on the boundaries of machine types
pub fn int_value(s: &mut Src) -> i128 {
    match s.weighted(&[8, 8, 8, 8, 1]) {
        4 => {
            let v = s.lit(u64::MAX) as i128;
            if s.chance(1, 3) {
                -v
            } else {
                v
            }
        }
        0 => s.below(300) as i128 - 20,
        1 | 2 => {
            let bits = *s.pick(&[7u32, 8, 15, 16, 24, 31, 32, 33, 40, 48, 55, 56, 62, 63, 64, 65, 71, 72, 95, 127 - 1]);
            let d = s.below(5) as i128 - 2;
            let base = 1i128 << bits;
            if s.chance(1, 2) {
                -base + d
            } else {
                base + d
            }
        }
        _ => {
            let n = s.range(1, 15);
            let mut v = 0i128;
            for _ in 0..n {
                v = (v << 8) | s.byte() as i128;
            }
            if s.chance(1, 2) {
                -v
            } else {
                v
            }
        }
    }
}

/// Content octets of an INTEGER: minimal, or sign-padded, or arbitrary
pub fn int_content(s: &mut Src, der: bool) -> Vec<u8> {
    match s.weighted(&[6, if der { 0 } else { 3 }, 1]) {
        0 => int_octets(int_value(s)),
        1 => {
            let v = int_octets(int_value(s));
            let pad = match s.weighted(&[40, 1]) {
                0 => *s.pick(&[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 40]),
                _ => s.lit(700) as usize,
            };
            let fill = if v[0] >= 0x80 { 0xff } else { 0 };
            let mut o = vec![fill; pad];
            o.extend(v);
            o
        }
        _ => {
            let n = s.range(1, 24);
            let mut v = s.bytes(n);
            if der {
                while v.len() > 1 && !int_minimal(&v) {
                    v.remove(0);
                }
            }
            v
        }
    }
}

fn size(s: &mut Src) -> usize {
    match s.weighted(&[80, 12, 2, 1]) {
        0 => s.usize(12),
        1 => s.range(10, 140),
        3 => s.lit(3000) as usize,
        _ => *s.pick(&[126usize, 127, 128, 129, 254, 255, 256, 257, 300, 1000]),
    }
}

/// n octets; long ones from a single choice
pub fn blob(s: &mut Src, n: usize) -> Vec<u8> {
    if n <= 300 {
        return s.bytes(n);
    }
    let seed = s.below(1 << 16);
    (0..n as u64).map(|i| (crate::engine::mix(seed, i / 8) >> (i % 8 * 8)) as u8).collect()
}

/// arbitrary content octets, sometimes with a constant from the library's source among them
pub fn content(s: &mut Src) -> Vec<u8> {
    let n = size(s);
    let mut v = blob(s, n);
    if s.chance(1, 40) {
        let b = s.lit_bytes();
        if s.chance(1, 2) {
            v = b;
        } else {
            let k = s.usize(v.len() + 1);
            v.splice(k..k, b);
        }
    }
    v
}

pub fn bit_content(s: &mut Src) -> Vec<u8> {
    let n = size(s);
    let mut data = blob(s, n);
    let u = if n == 0 { 0 } else { s.below(8) as u8 };
    if u > 0 && s.chance(3, 4) {
        let k = data.len() - 1;
        data[k] &= !((1u16 << u) - 1) as u8;
    }
    let mut o = vec![u];
    o.extend(data);
    o
}

pub fn bit_content_der(s: &mut Src) -> Vec<u8> {
    let mut o = bit_content(s);
    let u = o[0];
    if u > 0 {
        let k = o.len() - 1;
        o[k] &= !((1u16 << u) - 1) as u8;
    }
    o
}

pub fn utf8_text(s: &mut Src, n: usize) -> Vec<u8> {
    let mut o = String::new();
    for _ in 0..n {
        let c = match s.weighted(&[18, 6, 6, 3, 3, 1]) {
            5 => char::from_u32(s.lit(0x11_0000) as u32).unwrap_or('d'),
            0 => char::from(0x20 + s.below(95) as u8),
            1 => char::from_u32(0x80 + s.below(0x780) as u32).unwrap_or('a'),
            2 => char::from_u32(0x800 + s.below(0xf800) as u32).unwrap_or('b'),
            3 => char::from_u32(0x10000 + s.below(0x100000) as u32).unwrap_or('c'),
            _ => *s.pick(&['\u{0}', '\n', '\u{7f}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10ffff}', '\u{fffd}', '"']),
        };
        o.push(c);
    }
    o.into_bytes()
}

/// octets for a character string type; mostly valid
pub fn text_content(s: &mut Src, tag: u32, bad: bool) -> Vec<u8> {
    let n = size(s);
    let mut v: Vec<u8> = match tag {
        T_NUMERIC => (0..n).map(|_| *s.pick(b"0123456789 ")).collect(),
        T_PRINTABLE => (0..n)
            .map(|_| *s.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 '()+,-./:=?"))
            .collect(),
        T_VISIBLE | T_T61 | T_VIDEOTEX => (0..n).map(|_| 0x20 + s.below(0x60) as u8).collect(),
        T_IA5 | T_GENERAL | T_GRAPHIC | T_OBJDESC => (0..n).map(|_| s.below(0x80) as u8).collect(),
        T_UTF8 => utf8_text(s, n),
        T_UNIVERSAL if s.chance(3, 4) => {
            let v = utf8_text(s, n);
            let mut o: Vec<u8> = std::str::from_utf8(&v).unwrap_or("").chars().flat_map(|c| (c as u32).to_be_bytes()).collect();
            if s.chance(1, 8) {
                let k = s.usize(o.len() + 1);
                o.truncate(k);
            }
            o
        }
        T_BMP if s.chance(1, 3) => {
            let v = utf8_text(s, n);
            std::str::from_utf8(&v).unwrap_or("").encode_utf16().flat_map(|u| u.to_be_bytes()).collect()
        }
        T_BMP => {
            let mut o = vec![];
            for _ in 0..n {
                match s.weighted(&[5, 2, 1]) {
                    0 => o.extend_from_slice(&[0, 0x20 + s.below(95) as u8]),
                    1 => {
                        let u = *s.pick(&[0u16, 0x7f, 0x80, 0xd7ff, 0xe000, 0xfffe, 0xffff, 0x4e2d]);
                        o.extend_from_slice(&u.to_be_bytes())
                    }
                    _ => {
                        o.extend_from_slice(&(0xd800 + s.below(0x400) as u16).to_be_bytes());
                        o.extend_from_slice(&(0xdc00 + s.below(0x400) as u16).to_be_bytes());
                    }
                }
            }
            o
        }
        _ => blob(s, n),
    };
    if s.chance(1, 40) {
        // a constant from the library's source, as far as the repertoire has it
        let mut b = s.lit_bytes();
        match tag {
            T_BMP => b = b.iter().flat_map(|&x| [0, x & 0x7f]).collect(),
            T_UTF8 => {
                if std::str::from_utf8(&b).is_err() {
                    b.retain(|x| *x < 0x80)
                }
            }
            T_UNIVERSAL => {}
            t => b.retain(|x| charset_ok(t, std::slice::from_ref(x))),
        }
        let mut k = if s.chance(1, 2) { 0 } else { s.usize(v.len() + 1) };
        match tag {
            T_BMP => {
                k = k / 2 * 2;
                // not between the halves of a pair
                if k < v.len() && (0xdc..0xe0).contains(&v[k]) {
                    k -= 2;
                }
            }
            T_UTF8 => {
                while k < v.len() && v[k] & 0xc0 == 0x80 {
                    k -= 1;
                }
            }
            _ => {}
        }
        v.splice(k..k, b);
    }
    if bad {
        let k = s.usize(v.len() + 1);
        let x = *s.pick(&[
            0x80u8, 0xff, 0x1f, 0x00, 0x7f, b'*', b'@', b'&', b'_', b';', b'<', b'!', b'"', b'A', 0xc0, 0xd8, 0xdc, 0xed, 0xf5, 0xbf, b':' , b'/',
        ]);
        match s.below(3) {
            0 => v.insert(k, x),
            1 if !v.is_empty() => {
                let k = k % v.len();
                v[k] = x
            }
            _ => {
                v.push(x);
            }
        }
    }
    v
}

fn d2(s: &mut Src, max: u64, bad: bool, o: &mut Vec<u8>, lo: u64) {
    let v = if bad && s.chance(1, 12) {
        *s.pick(&[max + 1, 99, 0, max])
    } else if s.chance(1, 5) {
        *s.pick(&[lo, max])
    } else {
        lo + s.below(max - lo + 1)
    };
    o.extend(format!("{v:02}").bytes());
}

/// a time string; `bad` allows wrong shapes
pub fn time_content(s: &mut Src, gen: bool, der: bool, bad: bool) -> Vec<u8> {
    let mut o = vec![];
    let pick0 = |s: &mut Src| -> u64 { s.below(100) };
    if gen {
        let y = *s.pick(&[1950u64, 2020, 0, 99, 1999, 9999, 2049]);
        let y = match s.weighted(&[20, 10, 1]) {
            0 => y,
            1 => s.below(10000),
            _ => s.lit(10000),
        };
        o.extend(format!("{y:04}").bytes());
    } else {
        let y = pick0(s);
        o.extend(format!("{y:02}").bytes());
    }
    d2(s, 12, bad, &mut o, 1);
    d2(s, 31, bad, &mut o, 1);
    d2(s, 23, bad, &mut o, 0);
    d2(s, 59, bad, &mut o, 0);
    let sec = !s.chance(1, 6);
    if sec {
        d2(s, 59, bad, &mut o, 0);
    }
    if gen && sec && s.chance(1, 3) {
        o.push(if s.chance(1, 4) { b',' } else { b'.' });
        let nd = if bad { s.usize(6) } else { s.range(1, 3) };
        for _ in 0..nd {
            o.push(b'0' + s.below(10) as u8);
        }
    }
    match s.weighted(&[6, if der { 0 } else { 3 }, if gen && !der { 2 } else { 0 }, if bad { 1 } else { 0 }]) {
        0 => o.push(b'Z'),
        1 => {
            o.push(if s.chance(1, 2) { b'-' } else { b'+' });
            d2(s, 23, bad, &mut o, 0);
            d2(s, 59, bad, &mut o, 0);
        }
        2 => {}
        _ => o.push(*s.pick(b"zY+- 0")),
    }
    if bad && s.chance(1, 4) {
        let k = s.usize(o.len());
        match s.below(3) {
            0 => o[k] = *s.pick(b"09:/ Z+-.,A\x7f\x1f\x80\xff"),
            1 => {
                o.remove(k);
            }
            _ => o.insert(k, *s.pick(b"0123456789Z+-.")),
        }
    }
    o
}

pub fn oid_content(s: &mut Src) -> Vec<u8> {
    let mut o = vec![*s.pick(&[0x2au8, 0x00, 0x55, 0x2b, 0x27, 0x51, 0x77])];
    for _ in 0..s.usize(8) {
        let v = match s.weighted(&[12, 6, 3, 1]) {
            3 => s.lit(u64::MAX) as u128,
            0 => s.below(200) as u128,
            1 => s.below(1 << 32) as u128,
            _ => *s.pick(&[127u128, 128, 16383, 16384, u32::MAX as u128, u64::MAX as u128, 1 << 70]),
        };
        put_base128(&mut o, v);
    }
    o
}

pub const UNKNOWN_UNIVERSAL: [u32; 10] = [8, 9, 11, 14, 15, 29, 31, 32, 127, 128];

pub fn other_tag(s: &mut Src) -> u32 {
    match s.weighted(&[32, 12, 4, 3]) {
        3 => s.lit(1 << 32) as u32,
        0 => s.below(31) as u32,
        1 => *s.pick(&[31u32, 32, 127, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435456, u32::MAX, u32::MAX - 1]),
        _ => s.u64() as u32,
    }
}

/// content of a primitive universal type; tag is one of the leaf types
pub fn leaf_content(s: &mut Src, tag: u32, cfg: &Cfg, bad: bool) -> Vec<u8> {
    match tag {
        T_BOOL => {
            if bad && s.chance(1, 2) {
                let n = *s.pick(&[0usize, 2, 3]);
                s.bytes(n)
            } else if cfg.der && !bad {
                vec![*s.pick(&[0xffu8, 0])]
            } else {
                vec![*s.pick(&[0xffu8, 0, 1, 0x80, 0x7f, 0xfe])]
            }
        }
        T_INT => {
            if bad && s.chance(1, 3) {
                vec![]
            } else {
                int_content(s, cfg.der && !bad)
            }
        }
        T_BITS => {
            let mut v = if cfg.der && !bad { bit_content_der(s) } else { bit_content(s) };
            if bad {
                match s.below(4) {
                    0 => v = vec![],
                    1 => v[0] = s.byte(),
                    2 => v = vec![s.below(12) as u8],
                    _ => {}
                }
            }
            v
        }
        T_NULL => {
            if bad {
                s.bytes(2)
            } else {
                vec![]
            }
        }
        T_OID | T_RELOID => {
            if bad {
                let n = s.usize(5);
                s.bytes(n)
            } else {
                oid_content(s)
            }
        }
        T_ENUM => {
            if bad {
                let n = s.usize(12);
                s.bytes(n)
            } else {
                let v = match s.below(3) {
                    0 => s.below(300),
                    1 => *s.pick(&[0u64, 127, 128, 255, 256, 32767, 32768, 65535, 1 << 31, (1 << 31) - 1, u32::MAX as u64]),
                    _ => s.below(1 << 32),
                };
                int_octets(v as i128)
            }
        }
        T_UTC => time_content(s, false, cfg.der && !bad, bad),
        T_GENTIME => time_content(s, true, cfg.der && !bad, bad),
        T_BMP | T_UNIVERSAL => text_content(s, tag, bad),
        t if TEXT_TAGS.contains(&t) => text_content(s, t, bad),
        _ => content(s),
    }
}

pub const LEAVES: [u32; 24] = [
    T_NULL, T_BOOL, T_INT, T_INT, T_OCTETS, T_BITS, T_OID, T_ENUM, T_UTF8, T_RELOID, T_NUMERIC, T_PRINTABLE, T_T61, T_VIDEOTEX,
    T_IA5, T_UTC, T_GENTIME, T_GRAPHIC, T_VISIBLE, T_GENERAL, T_UNIVERSAL, T_BMP, T_OBJDESC, T_OCTETS,
];

/// Emit header + content + possible end-of-contents with the configured freedom/faults
pub fn emit(s: &mut Src, cfg: &Cfg, out: &mut Vec<u8>, class: u8, cons: bool, tag: u32, content: &[u8], framed: bool) {
    let fault = cfg.fault > 0 && s.chance(cfg.fault, 1000);
    let mut cons = cons;
    let which = if fault { s.usize(7) } else { 99 };
    if which == 0 {
        cons = !cons;
    }
    if which == 1 && tag < 128 {
        // non-minimal identifier
        out.push((class << 6) | if cons { 0x20 } else { 0 } | 0x1f);
        for _ in 0..s.usize(4) {
            out.push(0x80);
        }
        out.push(tag as u8);
    } else {
        put_tag(out, class, cons, tag);
    }
    let indef = match which {
        2 => true,
        _ => cons && framed && !cfg.der && s.chance(1, 4),
    };
    if indef {
        out.push(0x80);
        out.extend_from_slice(content);
        if !(which == 2 && s.chance(1, 4)) {
            out.extend_from_slice(&[0, 0]);
        }
        return;
    }
    match which {
        3 => put_len(out, (content.len() + s.usize(5)).saturating_sub(2)),
        4 => {
            let l = *s.pick(&[1usize << 16, 1 << 24, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 48, usize::MAX, 200, 70000]);
            put_len(out, l)
        }
        5 => {
            out.push(*s.pick(&[0xffu8, 0x80, 0x81, 0x89, 0x8a, 0xfe]));
            for _ in 0..s.usize(12) {
                out.push(s.byte());
            }
        }
        _ => {
            if !cfg.der && s.chance(1, 8) {
                let extra = *s.pick(&[0usize, 1, 2, 3, 7, 8, 9, 20]);
                put_len_padded(out, content.len(), extra)
            } else {
                put_len(out, content.len())
            }
        }
    }
    out.extend_from_slice(content);
}

/// One element (appended to out); `budget` limits total element count
pub fn element(s: &mut Src, cfg: &Cfg, depth: usize, budget: &mut usize, out: &mut Vec<u8>) {
    *budget = budget.saturating_sub(1);
    let deep = depth < cfg.depth && *budget > 0;
    let w = [10u64, if deep { 6 } else { 0 }, if cfg.other_class { 2 } else { 0 }, 1, if cfg.fault > 0 { 1 } else { 0 }];
    match s.weighted(&w) {
        0 => {
            let tag = *s.pick(&LEAVES);
            let bad = cfg.fault > 0 && s.chance(cfg.fault, 1000);
            let c = leaf_content(s, tag, cfg, bad);
            emit(s, cfg, out, 0, false, tag, &c, false);
        }
        1 => {
            let tag = if s.chance(1, 3) { T_SET } else { T_SEQ };
            let n = match s.weighted(&[8, 1]) {
                0 => s.usize(5),
                _ => s.usize(14),
            };
            let mut c = vec![];
            for _ in 0..n {
                element(s, cfg, depth + 1, budget, &mut c);
                if *budget == 0 {
                    break;
                }
            }
            emit(s, cfg, out, 0, true, tag, &c, true);
        }
        2 => {
            let class = 1 + s.below(3) as u8;
            let class = if class == 1 { 2 } else if class == 2 { 1 } else { 3 };
            let tag = other_tag(s);
            if s.chance(1, 2) {
                // constructed, with elements inside
                let mut c = vec![];
                for _ in 0..s.usize(3) {
                    element(s, cfg, depth + 1, budget, &mut c);
                }
                emit(s, cfg, out, class, true, tag, &c, true);
            } else {
                let c = content(s);
                emit(s, cfg, out, class, false, tag, &c, false);
            }
        }
        3 => {
            let tag = *s.pick(&UNKNOWN_UNIVERSAL);
            let c = content(s);
            emit(s, cfg, out, 0, false, tag, &c, false);
        }
        _ => {
            // oddities around end-of-contents
            out.extend_from_slice(s.pick::<&[u8]>(&[
                &[0, 0],
                &[0x80, 0],
                &[0x40, 0],
                &[0xc0, 0],
                &[0x20, 0],
                &[0, 0x81, 0],
                &[0xa0, 0x80, 0, 0],
                &[0x1f, 0x00, 0x00],
                &[0, 1, 0],
                &[0x24, 0x80, 4, 1, 0xaa, 0, 0],
            ]));
        }
    }
}

/// a forced container element
pub fn container(s: &mut Src, cfg: &Cfg, out: &mut Vec<u8>) {
    let tag = if s.chance(1, 3) { T_SET } else { T_SEQ };
    let mut c = vec![];
    let mut budget = 25;
    for _ in 0..s.range(1, 4) {
        element(s, cfg, 1, &mut budget, &mut c);
    }
    emit(s, cfg, out, 0, true, tag, &c, true);
}

pub fn one(s: &mut Src, cfg: &Cfg) -> Vec<u8> {
    let mut out = vec![];
    if s.chance(2, 5) {
        container(s, cfg, &mut out);
    } else {
        let mut budget = 30;
        element(s, cfg, 0, &mut budget, &mut out);
    }
    out
}

pub const INTERESTING: [u8; 40] = [
    0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x0a, 0x0c, 0x10, 0x13, 0x16, 0x17, 0x18, 0x1c, 0x1e, 0x1f, 0x20, 0x22, 0x23, 0x24, 0x30,
    0x31, 0x33, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x88, 0x89, 0xa0, 0xa1, 0xbf, 0xc0, 0xdf, 0xfe, 0xff,
];

pub fn mutate(s: &mut Src, v: &mut Vec<u8>) {
    for _ in 0..s.range(1, 3) {
        let n = v.len();
        match s.below(6) {
            0 if n > 0 => {
                let k = s.usize(n);
                v[k] = if s.chance(1, 3) { s.byte() } else { *s.pick(&INTERESTING) };
            }
            1 if n > 0 => {
                let k = s.usize(n);
                v[k] ^= 1 << s.below(8);
            }
            2 if n > 0 => {
                let k = s.usize(n);
                v.truncate(k);
            }
            3 => {
                let k = s.usize(n + 1);
                let x = *s.pick(&INTERESTING);
                v.insert(k, x);
            }
            4 if n > 0 => {
                let k = s.usize(n);
                let m = s.range(1, 4).min(n - k);
                v.drain(k..k + m);
            }
            5 if n > 0 => {
                let k = s.usize(n);
                let m = s.range(1, 12).min(n - k);
                let part: Vec<u8> = v[k..k + m].to_vec();
                let at = s.usize(n + 1);
                for (i, x) in part.into_iter().enumerate() {
                    v.insert(at + i, x);
                }
            }
            _ => {}
        }
    }
}

pub fn soup(s: &mut Src) -> Vec<u8> {
    if s.chance(1, 20) {
        let mut v = s.lit_bytes();
        let n = s.usize(10);
        v.extend(s.bytes(n));
        return v;
    }
    let n = s.usize(24);
    (0..n).map(|_| if s.chance(1, 4) { s.byte() } else { *s.pick(&INTERESTING) }).collect()
}

pub fn trailing(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[4, 2, 1, 1, 1]) {
        0 => vec![],
        1 => {
            let n = s.range(1, 6);
            s.bytes(n)
        }
        2 => vec![0, 0],
        3 => vec![0; 7],
        _ => {
            let mut o = vec![];
            element(s, &BER, 9, &mut 1, &mut o);
            o
        }
    }
}

/// Any input: valid, slightly faulty, mutated, or arbitrary; followed by trailing bytes
pub fn input(s: &mut Src, der: bool) -> Vec<u8> {
    let (ok, bad) = if der { (DER, DER_FAULTY) } else { (BER, BER_FAULTY) };
    let mut v = match s.weighted(&[4, 4, 3, 1]) {
        0 => one(s, &ok),
        1 => one(s, &bad),
        2 => {
            let mut v = one(s, &bad);
            mutate(s, &mut v);
            v
        }
        _ => soup(s),
    };
    let t = trailing(s);
    v.extend(t);
    v
}

/// exhaustive enumeration of short inputs: index -> bytes of length 0, 1, 2, 3 ...
pub fn short(mut idx: u64) -> Vec<u8> {
    let mut n = 0u32;
    loop {
        let c = 256u64.pow(n);
        if idx < c {
            break;
        }
        idx -= c;
        n += 1;
    }
    (0..n).rev().map(|k| (idx >> (8 * k)) as u8).collect()
}
pub const SHORT2: u64 = 1 + 256 + 65536;
pub const SHORT3: u64 = SHORT2 + (1 << 24);

// ---- large elements: sizes and member counts around the powers of two where counters wrap ----

const MID: [usize; 18] = [
    125, 126, 127, 128, 129, 130, 253, 254, 255, 256, 257, 258, 65533, 65534, 65535, 65536, 65537, 65538,
];
const HUGE: [usize; 3] = [0xff_ffff, 0x100_0000, 0x100_0001];
const MEMBER_KINDS: usize = 4;
const LEAF_KINDS: usize = 14;
/// further kinds, some malformed, some valid BER only; without the sizes around 2^24
const EXTRA_KINDS: usize = 20;
const ALL_KINDS: usize = MEMBER_KINDS + LEAF_KINDS + EXTRA_KINDS;
/// cases with contents or member counts of up to 2^16 + 2
const LARGE: u64 = (MID.len() * (MEMBER_KINDS + LEAF_KINDS)) as u64;
/// the same, and contents around 2^24
const LARGE_HUGE: u64 = LARGE + (HUGE.len() * LEAF_KINDS) as u64;

/// a valid element; mostly also valid DER
pub fn large(idx: u64) -> Vec<u8> {
    if idx >= LARGE_HUGE {
        let c = idx - LARGE_HUGE;
        let kinds = ALL_KINDS as u64;
        let (n, kind) = ((c / kinds).max(3), (c % kinds) as usize);
        return large_of(n.min(max_size(kind)) as usize, kind);
    }
    let idx = idx as usize;
    let (n, kind) = if (idx as u64) < LARGE {
        (MID[idx % MID.len()], idx / MID.len())
    } else {
        let i = idx - LARGE as usize;
        (HUGE[i % HUGE.len()], MEMBER_KINDS + i / HUGE.len())
    };
    large_of(n, kind)
}

const MAX_MEMBERS: u64 = 140_000;
const MAX_LEAF: u64 = 40 << 20;
const MAX_EXTRA: u64 = 1 << 20;
fn max_size(kind: usize) -> u64 {
    if kind < MEMBER_KINDS {
        MAX_MEMBERS
    } else if kind < MEMBER_KINDS + LEAF_KINDS {
        MAX_LEAF
    } else {
        MAX_EXTRA
    }
}
fn extra_codes() -> Vec<u64> {
    let mut v = vec![];
    for kind in MEMBER_KINDS + LEAF_KINDS..ALL_KINDS {
        for n in MID {
            v.push(LARGE_HUGE + (n * ALL_KINDS + kind) as u64);
        }
    }
    v
}

/// codes for `large`: the sizes and counts that appear as constants in the library's source
fn dict_codes(max_total: u64) -> Vec<u64> {
    let kinds = ALL_KINDS as u64;
    let mut v = vec![];
    let mut total = 0;
    let d = crate::dict::get();
    for &c in d.new.iter().chain(&d.old) {
        for n in [c.wrapping_sub(1), c, c.wrapping_add(1)] {
            if n < 3 || n == u64::MAX {
                continue;
            }
            for kind in 0..kinds {
                let members = kind < MEMBER_KINDS as u64;
                let cost = if members { n.saturating_mul(12) } else { n };
                if n <= max_size(kind as usize) && total + cost < max_total {
                    total += cost;
                    v.push(LARGE_HUGE + n * kinds + kind);
                }
            }
        }
    }
    v
}
/// `large` codes: fixed ones without or with the contents around 2^24, and those of the dictionary
pub fn large_codes(_thorough: bool) -> Vec<u64> {
    (0..LARGE).chain(extra_codes()).chain(dict_codes(60 << 20)).collect()
}
pub fn large_huge_codes(_thorough: bool) -> Vec<u64> {
    (0..LARGE_HUGE).chain(extra_codes()).chain(dict_codes(400 << 20)).collect()
}

/// the element, unless it is longer than `max`
pub fn large_upto(code: u64, max: usize) -> Option<Vec<u8>> {
    if code >= LARGE_HUGE && (code - LARGE_HUGE) / ALL_KINDS as u64 > max as u64 {
        return None;
    }
    Some(large(code)).filter(|b| b.len() <= max)
}

pub fn large_mixed_codes(thorough: bool) -> Vec<u64> {
    if thorough {
        large_huge_codes(true)
    } else {
        large_codes(false)
    }
}

fn large_of(n: usize, kind: usize) -> Vec<u8> {
    // content of n octets that differ from place to place, without a short period
    let fill = |n: usize, f: &dyn Fn(u32) -> u8| -> Vec<u8> {
        (0..n as u32).map(|i| f(i.wrapping_mul(0x9E37_79B1) >> 19)).collect()
    };
    let any = |n: usize| fill(n, &|x| x as u8);
    let letters = |n: usize| fill(n, &|x| b'a' + (x % 26) as u8);
    let digits = |n: usize| fill(n, &|x| b'0' + (x % 10) as u8);
    if kind < MEMBER_KINDS {
        let mut c = vec![];
        for i in 0..n as u32 {
            // minimal integers that tell all members apart
            c.extend([2, 3, 0x20 | (i >> 16) as u8, (i >> 8) as u8, i as u8]);
        }
        return match kind {
            0 => tlv(0, true, 16, &c),
            1 => tlv(0, true, 17, &c),
            2 => {
                let mut o = vec![0x30, 0x80];
                o.extend(c);
                o.extend([0, 0]);
                o
            }
            _ => {
                let inner = tlv(0, true, 17, &c);
                let mut m = inner.clone();
                m.extend([1, 1, 0xff]);
                tlv(0, true, 16, &m)
            }
        };
    }
    match kind - MEMBER_KINDS {
        0 => tlv(0, false, 4, &any(n)),
        1 => {
            let mut v = any(n);
            v[0] = 0x41;
            tlv(0, false, 2, &v)
        }
        2 => {
            let mut v = any(n);
            v[0] = 0;
            tlv(0, false, 3, &v)
        }
        3 => {
            let mut v = letters(n);
            let k = v.len() - 2;
            v[k..].copy_from_slice("\u{e9}".as_bytes());
            tlv(0, false, 12, &v)
        }
        4 => tlv(0, false, 22, &letters(n)),
        5 => tlv(0, false, 19, &letters(n)),
        6 => tlv(0, false, 18, &digits(n)),
        7 => tlv(2, false, 5, &any(n)),
        8 => tlv(1, true, 70_000, &any(n)),
        9 => tlv(0, false, 28, &any(n)),
        10 => {
            let mut c = tlv(0, false, 4, &any(n));
            c.extend([5, 0]);
            tlv(0, true, 16, &c)
        }
        11 => {
            let mut c = vec![1, 1, 0];
            c.extend(tlv(3, false, 40, &any(n)));
            c.extend([2, 1, 7]);
            tlv(0, true, 17, &c)
        }
        12 => {
            let mut o = vec![0x31, 0x80];
            o.extend(tlv(0, false, 4, &any(n)));
            o.extend([5, 0, 0, 0]);
            o
        }
        13 | 23 => {
            // an identifier of n content octets
            let mut v = fill(n, &|x| (x as u8) | 0x80);
            v[0] = 0x2a;
            v[n - 1] &= 0x7f;
            // keep components short
            for i in (1..n).step_by(4) {
                v[i] &= 0x7f;
            }
            for i in 2..n {
                if v[i - 1] < 0x80 && v[i] == 0x80 {
                    v[i] = 0x81;
                }
            }
            tlv(0, false, if kind - MEMBER_KINDS == 13 { 6 } else { 13 }, &v)
        }
        k => {
            // with one odd octet at the end
            let end = |mut v: Vec<u8>, e: &[u8]| {
                let k = v.len().saturating_sub(e.len());
                v[k..].copy_from_slice(&e[..e.len().min(n)]);
                v
            };
            let begin = |mut v: Vec<u8>, e: &[u8]| {
                v[..e.len().min(n)].copy_from_slice(&e[..e.len().min(n)]);
                v
            };
            match k {
                14 => tlv(0, false, 10, &end(vec![0; n], &[5])),
                15 => tlv(0, false, 2, &begin(any(n), &[0, 0])),
                16 => tlv(0, false, 2, &begin(any(n), &[0xff, 0xff])),
                17 => tlv(0, false, 3, &end(begin(any(n), &[3]), &[0xa8])),
                18 => tlv(0, false, 3, &end(begin(any(n), &[3]), &[0xac])),
                19 => tlv(0, false, 18, &end(digits(n), b"a")),
                20 => tlv(0, false, 12, &end(letters(n), &[0xc3])),
                21 => {
                    let mut t = vec![b'a'; n % 4];
                    for i in 0..(n / 4) as u32 {
                        t.extend(char::from_u32(0x10000 + i * 7).unwrap_or('\u{10000}').to_string().bytes());
                    }
                    tlv(0, false, 12, &t)
                }
                22 | 24 => {
                    // UTF-16 with surrogate pairs, then a lone one
                    let mut t = vec![];
                    while t.len() + 4 <= n {
                        t.extend(if t.len() % 12 == 0 { [0xd8, 0x01, 0xdc, 0x02] } else { [0, 0x41, 0x20, 0xac] });
                    }
                    if k == 24 {
                        t.extend([0xd8, 0x01]);
                    }
                    tlv(0, false, 30, &t)
                }
                25 => {
                    // the last member is truncated
                    let mut c = tlv(0, false, 4, &any(n));
                    c.extend([4, 9, 1]);
                    tlv(0, true, 16, &c)
                }
                26 => {
                    // valid BER, not DER
                    let mut c = tlv(0, false, 4, &any(n));
                    c.extend([0x31, 3, 1, 1, 1]);
                    tlv(0, true, 16, &c)
                }
                27 => tlv(0, false, 5, &any(n)),
                28 => tlv(0, false, 1, &end(vec![0; n], &[0xff])),
                29 => {
                    let mut t = b"20240229123456.".to_vec();
                    t.extend(digits(n));
                    t.push(b'Z');
                    tlv(0, false, 24, &t)
                }
                30 => {
                    let t: Vec<u8> = (0..n).map(|i| 0x20 + (i % 95) as u8).collect();
                    tlv(0, false, 26, &t)
                }
                31 => tlv(0, true, 4, &tlv(0, false, 4, &any(n))),
                32 => {
                    let mut o = vec![0xa5, 0x80, 0x30, 0x80];
                    o.extend(tlv(0, false, 4, &any(n)));
                    o.extend([0; 4]);
                    o
                }
                _ => {
                    let mut o = vec![4, 0x85, 0];
                    o.extend((n as u32).to_be_bytes());
                    o.extend(any(n));
                    o
                }
            }
        }
    }
}

pub const LEADS: u64 = 31 << 16;
/// every universal type with every pair of leading content octets; the rest follows from the index and the seed
pub fn lead(idx: u64, s: &mut Src) -> Vec<u8> {
    let tag = (idx >> 16) as u32 % 31;
    let mut c = vec![(idx >> 8) as u8, idx as u8];
    for _ in 0..s.usize(9) {
        c.push(match s.below(6) {
            0 => 0,
            1 => 0xff,
            2 => s.range(0x20, 0x7e) as u8,
            3 => s.range(0x30, 0x39) as u8,
            4 => s.range(1, 0x7f) as u8,
            _ => s.byte(),
        });
    }
    if s.chance(1, 2) {
        // a place where identifiers and most texts may end
        let k = c.len() - 1;
        c[k] &= 0x7f;
    }
    let cons = tag == 16 || tag == 17 || s.chance(1, 40);
    let b = tlv(0, cons, tag, &c);
    match s.below(4) {
        0 => tlv(0, true, 16, &b),
        _ => b,
    }
}

/// an element with long content or many members, possibly inside many levels, with small neighbours, which may be faulty
pub fn big(s: &mut Src) -> Vec<u8> {
    let bits = 6 + s.below(11);
    let mut n = (1 << bits) + s.below(1 << bits);
    if s.chance(1, 4) {
        n = 3 + s.lit(199_997);
    }
    let kind = s.usize(ALL_KINDS);
    if kind < MEMBER_KINDS {
        n = n.min(12_000);
    }
    let mut e = large_of(n as usize, kind);
    let levels = match s.weighted(&[4, 3, 2, 1]) {
        0 => 0,
        1 => s.range(1, 9),
        2 => s.usize(50),
        _ => 46 + s.usize(7),
    };
    let indef = s.below(3);
    let near = s.below(4);
    for _ in 0..levels {
        let id = *s.pick(&[0x30u8, 0x30, 0x31, 0x31, 0xa1]);
        let mut c = vec![];
        if near > 1 && s.chance(1, 4) {
            c.extend_from_slice(s.pick::<&[u8]>(&[&[5, 0], &[1, 1, 0xff], &[0x30, 0], &[4, 2, 0, 0], &[0x31, 2, 5, 0]]));
        }
        c.extend(&e);
        if near > 1 && s.chance(1, 4) {
            c.extend_from_slice(s.pick::<&[u8]>(&[&[5, 0], &[2, 1, 0], &[0x30, 0], &[0xa0, 0x80, 0, 0]]));
        }
        if near == 3 && s.chance(1, 30) {
            c.extend_from_slice(s.pick::<&[u8]>(&[&[1, 1, 1], &[2, 2, 0, 0], &[4, 3, 0], &[0x12, 1, 0x41], &[1, 0], &[0x80]]));
        }
        if indef == 1 || indef == 2 && s.chance(1, 3) {
            e = vec![id, 0x80];
            e.extend(c);
            e.extend([0, 0]);
        } else {
            e = tlv(id >> 6, true, (id & 0x1f) as u32, &c);
        }
    }
    e
}
