//! Independent reference model of BER/DER decoding (X.690), written from the standard and from the
//! property statements.  It works on offsets into the input and shares no code with der-parser.
//!
//! Verdicts are three-valued: `Ok` (the element must be accepted, with this value), `Ok` with
//! `lenient = true` (X.690 forbids the encoding or leaves the library a choice, but the value is
//! unambiguous: it may be accepted with exactly this value or refused), and `Err(Faults)`.

pub const MAX_SIZE: u64 = 4_294_967_295;
pub const SKIP_DEPTH: usize = 50;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Len {
    Def(usize),
    Indef,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Hdr {
    pub class: u8,
    pub cons: bool,
    pub tag: u32,
    pub len: Len,
    /// identifier octets: offsets start..tag_end
    pub start: usize,
    pub tag_end: usize,
    /// first content octet
    pub body: usize,
    pub minimal_tag: bool,
    pub minimal_len: bool,
}

/// Why an input is not acceptable; several faults may be present at once and an implementation may
/// report any of them.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Faults {
    /// the input stops before the end of the outermost element
    pub incomplete: bool,
    pub depth: bool,
    pub reject: bool,
    /// announced length above the maximum object size
    pub too_big: bool,
}

pub const INCOMPLETE: Faults = Faults { incomplete: true, depth: false, reject: false, too_big: false };
pub const DEPTH: Faults = Faults { incomplete: false, depth: true, reject: false, too_big: false };
pub const REJECT: Faults = Faults { incomplete: false, depth: false, reject: true, too_big: false };
pub const TOO_BIG: Faults = Faults { incomplete: false, depth: false, reject: true, too_big: true };

impl Faults {
    pub fn any(&self) -> bool {
        self.incomplete || self.depth || self.reject
    }
    pub fn merge(&mut self, o: Faults) {
        self.incomplete |= o.incomplete;
        self.depth |= o.depth;
        self.reject |= o.reject;
        self.too_big |= o.too_big;
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tz {
    None,
    Z,
    Off(i8, i8),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Time {
    pub year: u32,
    pub month: u8,
    pub day: u8,
    pub hour: u8,
    pub minute: u8,
    pub second: u8,
    pub ms: Option<u16>,
    pub tz: Tz,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Eoc,
    Bool(bool),
    Int,
    Bits(u8),
    Octets,
    Null,
    Enum(u64),
    Oid,
    RelOid,
    /// character string shown as text
    Str,
    Bmp,
    Univ,
    Seq(Vec<Node>),
    Set(Vec<Node>),
    Utc(Time),
    Gen(Time),
    Unknown,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub h: Hdr,
    /// content octets (without end-of-contents)
    pub c0: usize,
    pub c1: usize,
    /// end of the element (after end-of-contents)
    pub end: usize,
    pub val: Val,
}

pub fn read_hdr(b: &[u8], at: usize) -> Result<Hdr, Faults> {
    let get = |i: usize| b.get(i).copied();
    let b0 = get(at).ok_or(INCOMPLETE)?;
    let class = b0 >> 6;
    let cons = b0 & 0x20 != 0;
    let mut p = at + 1;
    let mut tag = (b0 & 0x1f) as u64;
    let mut minimal_tag = true;
    if tag == 0x1f {
        tag = 0;
        let mut n = 0;
        loop {
            if n == 5 {
                return Err(REJECT);
            }
            let x = get(p).ok_or(INCOMPLETE)?;
            if n == 0 && x == 0x80 {
                minimal_tag = false;
            }
            tag = tag * 128 + (x & 0x7f) as u64;
            p += 1;
            n += 1;
            if x < 0x80 {
                break;
            }
        }
        if tag > u32::MAX as u64 {
            return Err(REJECT);
        }
        if tag < 31 {
            minimal_tag = false;
        }
    }
    let tag_end = p;
    let l0 = get(p).ok_or(INCOMPLETE)?;
    p += 1;
    let mut minimal_len = true;
    let len = if l0 < 0x80 {
        Len::Def(l0 as usize)
    } else if l0 == 0x80 {
        if !cons {
            return Err(REJECT);
        }
        Len::Indef
    } else if l0 == 0xff {
        return Err(REJECT);
    } else {
        let n = (l0 & 0x7f) as usize;
        if b.len() - p < n {
            return Err(INCOMPLETE);
        }
        let digits = &b[p..p + n];
        p += n;
        let sig: Vec<u8> = digits.iter().copied().skip_while(|&x| x == 0).collect();
        if sig.len() > 8 {
            return Err(TOO_BIG);
        }
        let v = sig.iter().fold(0u64, |a, &x| (a << 8) | x as u64);
        minimal_len = sig.len() == n && v >= 128;
        Len::Def(v as usize)
    };
    Ok(Hdr { class, cons, tag: tag as u32, len, start: at, tag_end, body: p, minimal_tag, minimal_len })
}

/// Extent of an element: (content end, element end), within `b[..lim]`.
pub fn frame(b: &[u8], h: &Hdr) -> Result<(usize, usize), Faults> {
    match h.len {
        Len::Def(l) => {
            if l as u64 > MAX_SIZE {
                return Err(TOO_BIG);
            }
            if b.len() - h.body < l {
                return Err(INCOMPLETE);
            }
            Ok((h.body + l, h.body + l))
        }
        Len::Indef => {
            let mut open = 1usize;
            let mut p = h.body;
            loop {
                if b[p..].starts_with(&[0, 0]) {
                    p += 2;
                    open -= 1;
                    if open == 0 {
                        return Ok((p - 2, p));
                    }
                    continue;
                }
                let c = read_hdr(b, p)?;
                if open >= SKIP_DEPTH {
                    return Err(DEPTH);
                }
                p = c.body;
                match c.len {
                    Len::Def(l) => {
                        if l as u64 > MAX_SIZE {
                            return Err(TOO_BIG);
                        }
                        if b.len() - p < l {
                            return Err(INCOMPLETE);
                        }
                        p += l;
                    }
                    Len::Indef => open += 1,
                }
            }
        }
    }
}

pub const T_BOOL: u32 = 1;
pub const T_INT: u32 = 2;
pub const T_BITS: u32 = 3;
pub const T_OCTETS: u32 = 4;
pub const T_NULL: u32 = 5;
pub const T_OID: u32 = 6;
pub const T_OBJDESC: u32 = 7;
pub const T_ENUM: u32 = 10;
pub const T_UTF8: u32 = 12;
pub const T_RELOID: u32 = 13;
pub const T_SEQ: u32 = 16;
pub const T_SET: u32 = 17;
pub const T_NUMERIC: u32 = 18;
pub const T_PRINTABLE: u32 = 19;
pub const T_T61: u32 = 20;
pub const T_VIDEOTEX: u32 = 21;
pub const T_IA5: u32 = 22;
pub const T_UTC: u32 = 23;
pub const T_GENTIME: u32 = 24;
pub const T_GRAPHIC: u32 = 25;
pub const T_VISIBLE: u32 = 26;
pub const T_GENERAL: u32 = 27;
pub const T_UNIVERSAL: u32 = 28;
pub const T_BMP: u32 = 30;

pub const TEXT_TAGS: [u32; 10] =
    [T_UTF8, T_NUMERIC, T_PRINTABLE, T_T61, T_VIDEOTEX, T_IA5, T_GRAPHIC, T_VISIBLE, T_GENERAL, T_OBJDESC];

fn valid_utf8(s: &[u8]) -> bool {
    // RFC 3629, independent of core::str
    let mut i = 0;
    while i < s.len() {
        let b0 = s[i];
        let (n, lo, hi) = match b0 {
            0x00..=0x7f => {
                i += 1;
                continue;
            }
            0xc2..=0xdf => (1, 0x80, 0xbf),
            0xe0 => (2, 0xa0, 0xbf),
            0xe1..=0xec | 0xee..=0xef => (2, 0x80, 0xbf),
            0xed => (2, 0x80, 0x9f),
            0xf0 => (3, 0x90, 0xbf),
            0xf1..=0xf3 => (3, 0x80, 0xbf),
            0xf4 => (3, 0x80, 0x8f),
            _ => return false,
        };
        if i + n >= s.len() {
            return false;
        }
        if s[i + 1] < lo || s[i + 1] > hi {
            return false;
        }
        for k in 2..=n {
            if s[i + k] & 0xc0 != 0x80 {
                return false;
            }
        }
        i += n + 1;
    }
    true
}

fn valid_utf16be(s: &[u8]) -> bool {
    if s.len() % 2 != 0 {
        return false;
    }
    let u: Vec<u16> = s.chunks(2).map(|c| (c[0] as u16) * 256 + c[1] as u16).collect();
    let mut i = 0;
    while i < u.len() {
        match u[i] {
            0xd800..=0xdbff => {
                if i + 1 >= u.len() || !(0xdc00..=0xdfff).contains(&u[i + 1]) {
                    return false;
                }
                i += 2;
            }
            0xdc00..=0xdfff => return false,
            _ => i += 1,
        }
    }
    true
}

pub fn charset_ok(tag: u32, s: &[u8]) -> bool {
    match tag {
        T_NUMERIC => s.iter().all(|&c| c == b' ' || c.is_ascii_digit()),
        T_PRINTABLE => s.iter().all(|&c| {
            c.is_ascii_alphanumeric()
                || [b' ', b'\'', b'(', b')', b'+', b',', b'-', b'.', b'/', b':', b'=', b'?'].contains(&c)
        }),
        T_IA5 | T_GENERAL | T_GRAPHIC | T_OBJDESC => s.iter().all(|&c| c < 0x80),
        T_VISIBLE | T_T61 | T_VIDEOTEX => s.iter().all(|&c| (0x20..=0x7f).contains(&c)),
        T_UTF8 => valid_utf8(s),
        T_BMP => valid_utf16be(s),
        T_UNIVERSAL => true,
        _ => unreachable!("charset of tag {tag}"),
    }
}

/// Result of decoding a time: value, or lenient value, or rejected
pub enum TimeV {
    Ok(Time),
    Lenient(Time),
    Bad,
}

fn dec2(s: &[u8]) -> Option<u8> {
    match s {
        [a, b] if a.is_ascii_digit() && b.is_ascii_digit() => Some((a - 48) * 10 + (b - 48)),
        _ => None,
    }
}

pub fn decode_time(s: &[u8], gen: bool) -> TimeV {
    let ydigits = if gen { 4 } else { 2 };
    let mut parts = vec![];
    let ndate = ydigits + 8; // YY[YY]MMDDhhmm
    if s.len() < ndate {
        return TimeV::Bad;
    }
    let mut p = 0;
    while p < ndate {
        match dec2(&s[p..p + 2]) {
            Some(v) => parts.push(v),
            None => return TimeV::Bad,
        }
        p += 2;
    }
    let (year, r) = if gen { (parts[0] as u32 * 100 + parts[1] as u32, &parts[2..]) } else { (parts[0] as u32, &parts[1..]) };
    let mut t = Time { year, month: r[0], day: r[1], hour: r[2], minute: r[3], second: 0, ms: None, tz: Tz::None };
    if t.month > 12 || t.day > 31 || t.hour > 23 || t.minute > 59 {
        return TimeV::Bad;
    }
    let mut lenient = false;
    let mut has_sec = false;
    if s.len() >= p + 2 {
        if let Some(v) = dec2(&s[p..p + 2]) {
            if v > 59 {
                return TimeV::Bad;
            }
            t.second = v;
            has_sec = true;
            p += 2;
        }
    }
    let rest = &s[p..];
    let mut rest = rest;
    if gen && !rest.is_empty() && (rest[0] == b'.' || rest[0] == b',') {
        let nd = rest[1..].iter().take_while(|c| c.is_ascii_digit()).count();
        if nd > 3 {
            return TimeV::Bad;
        }
        if nd == 0 {
            if rest.len() == 1 {
                return TimeV::Bad;
            }
            lenient = true;
        }
        if !has_sec {
            // fraction of a minute: not part of the documented shape
            return TimeV::Bad;
        }
        let mut ms = 0u16;
        for k in 0..3 {
            ms = ms * 10 + if k < nd { (rest[1 + k] - 48) as u16 } else { 0 };
        }
        t.ms = Some(ms);
        rest = &rest[1 + nd..];
    }
    match rest {
        [] => {
            if !gen {
                return TimeV::Bad;
            }
            if !has_sec {
                lenient = true;
            }
        }
        [b'Z'] => t.tz = Tz::Z,
        [sg @ (b'+' | b'-'), o @ ..] if o.len() == 4 => match (dec2(&o[..2]), dec2(&o[2..])) {
            (Some(h), Some(m)) => {
                if h > 23 || m > 59 || !has_sec {
                    lenient = true;
                }
                let (h, m) = (h as i8, m as i8);
                t.tz = if *sg == b'+' {
                    Tz::Off(h, m)
                } else if h == 0 {
                    Tz::Off(0, -m)
                } else {
                    Tz::Off(-h, m)
                };
            }
            _ => return TimeV::Bad,
        },
        _ => return TimeV::Bad,
    }
    if lenient {
        TimeV::Lenient(t)
    } else {
        TimeV::Ok(t)
    }
}

pub struct Parsed {
    pub node: Node,
    pub lenient: bool,
}

/// Value of a universal element read as type `tag` (used for generic and implicit/per-type parsing)
/// with its content at c0..c1.
fn value(b: &[u8], h: &Hdr, tag: u32, c0: usize, c1: usize, n: usize, der: bool, lenient: &mut bool) -> Result<Val, Faults> {
    let s = &b[c0..c1];
    let cons = h.cons;
    let indef = h.len == Len::Indef;
    if der && indef {
        return Err(REJECT);
    }
    Ok(match tag {
        0 => {
            *lenient |= !s.is_empty() || cons;
            Val::Eoc
        }
        T_BOOL => {
            if indef || s.len() != 1 {
                return Err(REJECT);
            }
            if der && s[0] != 0 && s[0] != 0xff {
                return Err(REJECT);
            }
            *lenient |= cons;
            Val::Bool(s[0] != 0)
        }
        T_INT => {
            if der && !int_minimal(s) {
                return Err(REJECT);
            }
            *lenient |= cons || s.is_empty();
            Val::Int
        }
        T_BITS => {
            if cons || s.is_empty() {
                return Err(REJECT);
            }
            let u = s[0];
            let bad = u > 7 || (u > 0 && s.len() == 1);
            if der {
                if bad {
                    return Err(REJECT);
                }
                if u > 0 && s[s.len() - 1] & ((1u8 << u) - 1) != 0 {
                    return Err(REJECT);
                }
            }
            *lenient |= bad;
            Val::Bits(u)
        }
        T_OCTETS => {
            if der && cons {
                return Err(REJECT);
            }
            *lenient |= cons;
            Val::Octets
        }
        T_NULL => {
            *lenient |= cons || !s.is_empty();
            Val::Null
        }
        T_OID | T_RELOID => {
            *lenient |= cons || s.is_empty() || s[s.len() - 1] >= 0x80;
            if tag == T_OID {
                Val::Oid
            } else {
                Val::RelOid
            }
        }
        T_ENUM => {
            let sig: Vec<u8> = s.iter().copied().skip_while(|&x| x == 0).collect();
            if sig.len() > 8 {
                return Err(REJECT);
            }
            let v = sig.iter().fold(0u64, |a, &x| (a << 8) | x as u64);
            *lenient |= cons || s.is_empty() || v > u32::MAX as u64 || (s.len() > 1 && s[0] == 0 && s[1] < 0x80);
            Val::Enum(v)
        }
        t if TEXT_TAGS.contains(&t) => {
            if cons || !charset_ok(t, s) {
                return Err(REJECT);
            }
            Val::Str
        }
        T_BMP | T_UNIVERSAL => {
            if cons || !charset_ok(tag, s) {
                return Err(REJECT);
            }
            if tag == T_BMP {
                Val::Bmp
            } else {
                Val::Univ
            }
        }
        T_UTC | T_GENTIME => {
            if der && s.last() != Some(&b'Z') {
                return Err(REJECT);
            }
            let t = match decode_time(s, tag == T_GENTIME) {
                TimeV::Ok(t) => t,
                TimeV::Lenient(t) => {
                    *lenient = true;
                    t
                }
                TimeV::Bad => return Err(REJECT),
            };
            *lenient |= cons;
            if tag == T_UTC {
                Val::Utc(t)
            } else {
                Val::Gen(t)
            }
        }
        T_SEQ | T_SET => {
            if !cons {
                return Err(REJECT);
            }
            let mut items = vec![];
            let mut f = Faults::default();
            let mut p = c0;
            let mut tolerated = false;
            while p < c1 {
                match element(&b[..c1], p, n - 1, der, false) {
                    Ok(x) => {
                        p = x.node.end;
                        *lenient |= x.lenient;
                        tolerated |= x.lenient;
                        items.push(x.node);
                    }
                    Err((g, end)) => {
                        // inside a complete container, missing data is a plain error
                        f.merge(Faults { incomplete: false, reject: g.reject || g.incomplete, ..g });
                        match end {
                            Some(e) => p = e,
                            None => break,
                        }
                    }
                }
            }
            if f.any() {
                // a member that may be refused may be the one that is reported
                f.reject |= tolerated;
                return Err(f);
            }
            if tag == T_SEQ {
                Val::Seq(items)
            } else {
                Val::Set(items)
            }
        }
        _ => Val::Unknown,
    })
}

pub fn int_minimal(s: &[u8]) -> bool {
    match s {
        [] => false,
        [_] => true,
        [a, b, ..] => !((*a == 0 && *b < 0x80) || (*a == 0xff && *b >= 0x80)),
    }
}

/// Decode the element at `at`; on error also tell where it ends, if its frame is sound.
pub fn element(b: &[u8], at: usize, n: usize, der: bool, top: bool) -> Result<Parsed, (Faults, Option<usize>)> {
    if top && n == 0 {
        // everything is refused; a truncated input may also be reported as such
        let mut f = DEPTH;
        match read_hdr(b, at) {
            Ok(h) => {
                if let Err(g) = frame(b, &h) {
                    f.merge(g)
                }
                if der && h.len == Len::Indef {
                    f.merge(REJECT)
                }
            }
            Err(g) => f.merge(g),
        }
        return Err((f, None));
    }
    // with an exhausted limit, any fault of the element may be reported instead of the depth
    let plus_depth = |mut f: Faults| {
        if n == 0 {
            f.merge(DEPTH)
        }
        (f, None)
    };
    let h = read_hdr(b, at).map_err(plus_depth)?;
    if der && h.len == Len::Indef {
        return Err(plus_depth(REJECT));
    }
    let (c1, end) = frame(b, &h).map_err(plus_depth)?;
    if n == 0 {
        let mut f = DEPTH;
        if h.class == 0 {
            // other faults of the refused element may be reported instead
            let mut l = false;
            if h.tag != T_SEQ && h.tag != T_SET {
                if let Err(g) = value(b, &h, h.tag, h.body, c1, 1, der, &mut l) {
                    f.merge(g);
                }
            } else if !h.cons {
                f.merge(REJECT);
            }
        }
        return Err((f, Some(end)));
    }
    let mut lenient = !h.minimal_tag;
    let val = if h.class == 0 {
        value(b, &h, h.tag, h.body, c1, n, der, &mut lenient).map_err(|f| (f, Some(end)))?
    } else {
        Val::Unknown
    };
    let c0 = h.body;
    Ok(Parsed { node: Node { h, c0, c1, end, val }, lenient })
}

pub fn ber(b: &[u8], n: usize) -> Result<Parsed, Faults> {
    element(b, 0, n, false, true).map_err(|e| e.0)
}
pub fn der(b: &[u8], n: usize) -> Result<Parsed, Faults> {
    element(b, 0, n, true, true).map_err(|e| e.0)
}

/// Decode the element at offset 0 as type `tag`, whatever its own class (per-type parsers)
pub fn as_type(b: &[u8], tag: u32, der: bool) -> Result<Parsed, Faults> {
    let h = read_hdr(b, 0)?;
    if der && h.len == Len::Indef {
        return Err(REJECT);
    }
    let (c1, end) = frame(b, &h)?;
    let mut lenient = !h.minimal_tag;
    let val = value(b, &h, tag, h.body, c1, SKIP_DEPTH, der, &mut lenient)?;
    Ok(Parsed { node: Node { c0: h.body, h, c1, end, val }, lenient })
}

impl Node {
    pub fn content<'b>(&self, b: &'b [u8]) -> &'b [u8] {
        &b[self.c0..self.c1]
    }
    pub fn members(&self) -> &[Node] {
        match &self.val {
            Val::Seq(v) | Val::Set(v) => v,
            _ => &[],
        }
    }
    pub fn depth(&self) -> usize {
        1 + self.members().iter().map(|m| m.depth()).max().unwrap_or(0)
    }
    pub fn any_indef(&self) -> bool {
        self.h.len == Len::Indef || self.members().iter().any(|m| m.any_indef())
    }
}
