//! C07 integers, C08 bit strings, C09 character strings, C10 times
use crate::cmp::*;
use crate::driver::Prop;
use crate::engine::*;
use crate::gen::{self, hex};
use crate::parsers::*;
use crate::refm::{self, *};
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::{BerError, BerResult};
use der_parser::nom;

// ---------------------------------------------------------------- C07

/// minimal two's-complement octets
fn trim(c: &[u8]) -> Vec<u8> {
    let mut k = 0;
    while k + 1 < c.len() && ((c[k] == 0 && c[k + 1] < 0x80) || (c[k] == 0xff && c[k + 1] >= 0x80)) {
        k += 1;
    }
    c[k..].to_vec()
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Want {
    Value(i128),
    /// the value, or any error
    Maybe(i128),
    Negative,
    TooLarge,
}

fn want(c: &[u8], signed: bool, n: usize) -> Want {
    if c.is_empty() {
        return Want::Maybe(0);
    }
    let t = trim(c);
    let neg = t[0] >= 0x80;
    if neg && !signed {
        return Want::Negative;
    }
    let fits = if signed { t.len() <= n } else { t.len() <= n || (t.len() == n + 1 && t[0] == 0) };
    if !fits {
        return Want::TooLarge;
    }
    let mut v: i128 = if neg { -1 } else { 0 };
    for x in &t {
        v = (v << 8) | *x as i128;
    }
    if neg && t.len() != c.len() {
        Want::Maybe(v)
    } else {
        Want::Value(v)
    }
}

fn judge<E: std::fmt::Debug>(what: &str, got: Result<i128, E>, neg: bool, large: bool, w: Want) -> Result<(), String> {
    let ok = match (&got, w) {
        (Ok(v), Want::Value(x)) => *v == x,
        (Ok(v), Want::Maybe(x)) => *v == x,
        (Err(_), Want::Maybe(_)) => true,
        (Err(_), Want::Negative) => neg,
        (Err(_), Want::TooLarge) => large,
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {w:?}"))
    }
}

fn acc<T: Into<i128>>(what: &str, r: Result<T, BerError>, w: Want) -> Result<(), String> {
    let (n, l) = (matches!(r, Err(BerError::IntegerNegative)), matches!(r, Err(BerError::IntegerTooLarge)));
    judge(what, r.map(|x| x.into()), n, l, w)
}

fn direct<T: Into<i128> + std::fmt::Debug>(what: &str, b: &[u8], end: usize, r: BerResult<'_, T>, w: Want, der_bad: bool) -> Result<(), String> {
    match r {
        Ok((rem, v)) => {
            check_rem(b, rem, end).map_err(|e| format!("{what}: {e}"))?;
            if der_bad {
                return Err(format!("{what}: accepts an integer that is not minimally encoded ({v:?})"));
            }
            acc(what, Ok(v), w)
        }
        Err(nom::Err::Incomplete(n)) => Err(format!("{what}: Incomplete({n:?}) on a complete integer")),
        Err(nom::Err::Error(e)) | Err(nom::Err::Failure(e)) => {
            if der_bad {
                return Ok(());
            }
            acc::<T>(what, Err(e), w)
        }
    }
}

pub(super) fn check_obj(what: &str, o: &BerObject, c: &[u8]) -> Result<(), String> {
    acc(&format!("{what}.as_i32"), o.as_i32(), want(c, true, 4))?;
    acc(&format!("{what}.as_i64"), o.as_i64(), want(c, true, 8))?;
    acc(&format!("{what}.as_u32"), o.as_u32(), want(c, false, 4))?;
    acc(&format!("{what}.as_u64"), o.as_u64(), want(c, false, 8))?;
    acc(&format!("{what}.content.as_i32"), o.content.as_i32(), want(c, true, 4))?;
    acc(&format!("{what}.content.as_i64"), o.content.as_i64(), want(c, true, 8))?;
    acc(&format!("{what}.content.as_u32"), o.content.as_u32(), want(c, false, 4))?;
    acc(&format!("{what}.content.as_u64"), o.content.as_u64(), want(c, false, 8))?;
    if !c.is_empty() {
        let t = trim(c);
        match o.as_bigint() {
            Ok(v) => {
                if v.to_signed_bytes_be() != t {
                    return Err(format!("{what}.as_bigint gives {v}"));
                }
            }
            Err(e) => return Err(format!("{what}.as_bigint fails: {e:?}")),
        }
        match o.as_biguint() {
            Ok(v) => {
                let mag: Vec<u8> = if t.len() > 1 && t[0] == 0 { t[1..].to_vec() } else { t.clone() };
                if t[0] >= 0x80 || v.to_bytes_be() != mag {
                    return Err(format!("{what}.as_biguint gives {v}"));
                }
            }
            Err(e) => {
                if t[0] < 0x80 || !matches!(e, BerError::IntegerNegative) {
                    return Err(format!("{what}.as_biguint fails: {e:?}"));
                }
            }
        }
    }
    Ok(())
}

fn c07_content(c: &[u8], trail: &[u8], lenpad: Option<usize>, cov: &mut Cov) -> Result<(), String> {
    let err = |e: String| format!("INTEGER {}: {e}", hex(c));
    check_obj("from_int_slice", &BerObject::from_int_slice(c), c).map_err(err)?;
    check_obj("from_obj", &BerObject::from_obj(BerObjectContent::Integer(c)), c).map_err(err)?;
    let mut b = vec![2u8];
    match lenpad {
        Some(p) => gen::put_len_padded(&mut b, c.len(), p),
        None => gen::put_len(&mut b, c.len()),
    }
    b.extend_from_slice(c);
    let end = b.len();
    b.extend_from_slice(trail);
    let der_bad = !int_minimal(c);
    for (what, r, der) in [
        ("parse_ber", parse_ber(&b), false),
        ("parse_ber_integer", parse_ber_integer(&b), false),
        ("parse_der", parse_der(&b), true),
        ("parse_der_integer", parse_der_integer(&b), true),
    ] {
        match r {
            Ok((_, o)) => {
                if der && der_bad {
                    return Err(err(format!("{what} accepts it, but it is not minimal")));
                }
                if o.as_slice().ok() != Some(c) {
                    return Err(err(format!("{what}: wrong octets {:?}", o.as_slice())));
                }
                check_obj(what, &o, c).map_err(err)?
            }
            Err(e) => {
                if !(der && der_bad) && !c.is_empty() {
                    return Err(err(format!("{what} refuses it: {e:?}")));
                }
            }
        }
    }
    for der in [false, true] {
        let bad = der && der_bad;
        let r = if der {
            direct("parse_der_i32", &b, end, parse_der_i32(&b), want(c, true, 4), bad)
                .and_then(|_| direct("parse_der_i64", &b, end, parse_der_i64(&b), want(c, true, 8), bad))
                .and_then(|_| direct("parse_der_u32", &b, end, parse_der_u32(&b), want(c, false, 4), bad))
                .and_then(|_| direct("parse_der_u64", &b, end, parse_der_u64(&b), want(c, false, 8), bad))
        } else {
            direct("parse_ber_i32", &b, end, parse_ber_i32(&b), want(c, true, 4), bad)
                .and_then(|_| direct("parse_ber_i64", &b, end, parse_ber_i64(&b), want(c, true, 8), bad))
                .and_then(|_| direct("parse_ber_u32", &b, end, parse_ber_u32(&b), want(c, false, 4), bad))
                .and_then(|_| direct("parse_ber_u64", &b, end, parse_ber_u64(&b), want(c, false, 8), bad))
        };
        r.map_err(err)?;
    }
    for (signed, n, l) in [(true, 4, "i32"), (true, 8, "i64"), (false, 4, "u32"), (false, 8, "u64")] {
        if let Want::Value(_) = want(c, signed, n) {
            cov.label(l)
        }
    }
    cov.label_if(der_bad, "padded");
    cov.label_if(c.first().map_or(false, |x| *x >= 0x80), "negative");
    cov.label_if(want(c, true, 8) == Want::TooLarge && want(c, false, 8) != Want::Value(0), "beyond i64");
    if c.len() >= 3 {
        cov.nontrivial(c, || format!("INTEGER {}", hex(c)));
    }
    Ok(())
}

fn c07_short(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    c07_content(&gen::short(s.below(gen::SHORT3)), &[], None, cov)
}
fn c07_random(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let mut c = gen::int_content(s, false);
    if s.chance(1, 40) {
        // very long padding
        let n = s.range(100, 3000);
        let f = if c[0] >= 0x80 { 0xff } else { 0 };
        let mut v = vec![f; n];
        v.extend(&c);
        c = v;
    }
    let t = gen::trailing(s);
    let lp = if s.chance(1, 5) { Some(s.usize(5)) } else { None };
    c07_content(&c, &t, lp, cov)
}
/// boundary values: (bits, sign, delta, padding) enumerated
fn c07_bounds(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let mut i = s.below(BOUNDS);
    let mut take = |n: u64| {
        let r = i % n;
        i /= n;
        r
    };
    let bits = 6 + take(67);
    let neg = take(2) == 1;
    let d = take(7) as i128 - 3;
    let pad = take(11) as usize;
    let mut v = (1i128 << bits) + d;
    if neg {
        v = -v;
    }
    let mut c = gen::int_octets(v);
    let f = if c[0] >= 0x80 { 0xff } else { 0 };
    for _ in 0..pad {
        c.insert(0, f);
    }
    c07_content(&c, &[], None, cov)
}
const BOUNDS: u64 = 67 * 2 * 7 * 11;

fn c07_enum(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let c = match s.below(3) {
        0 => gen::int_content(s, false),
        1 => {
            let n = s.range(1, 9);
            s.bytes(n)
        }
        _ => gen::leaf_content(s, T_ENUM, &gen::BER, false),
    };
    let b = gen::tlv(0, false, T_ENUM, &c);
    let m = refm::ber(&b, 5);
    let objs = [("parse_ber", parse_ber(&b)), ("parse_ber_enum", parse_ber_enum(&b)), ("parse_der_enum", parse_der_enum(&b))];
    for (what, r) in &objs {
        let Ok((_, o)) = r else {
            if let Ok(p) = &m {
                if !p.lenient {
                    return Err(format!("ENUMERATED {} refused by {what}", hex(&c)));
                }
            }
            continue;
        };
        let Ok(p) = &m else { return Err(format!("ENUMERATED {} accepted by {what}", hex(&c))) };
        let Val::Enum(v) = p.node.val else { return Err("model".into()) };
        let e = |x: String| format!("ENUMERATED {} by {what}: {x}", hex(&c));
        acc("as_u64", o.as_u64(), Want::Value(v as i128)).map_err(e)?;
        acc("as_u32", o.as_u32(), if v > u32::MAX as u64 { Want::TooLarge } else { Want::Value(v as i128) }).map_err(e)?;
        // the signed accessors may refuse enumerated values, but not misread them
        acc("as_i64", o.as_i64(), Want::Maybe(v as i128)).map_err(e)?;
        acc("as_i32", o.as_i32(), Want::Maybe(v as i128)).map_err(e)?;
        cov.nontrivial(&(1u8, &c), || format!("ENUMERATED {}", hex(&c)));
    }
    // built rather than parsed
    let v = match s.below(3) {
        0 => s.below(300),
        1 => *s.pick(&[0u64, 255, 256, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX, 1 << 63]),
        _ => s.u64(),
    };
    let o = BerObject::from_obj(BerObjectContent::Enum(v));
    acc("Enum.as_u64", o.as_u64(), Want::Value(v as i128))?;
    acc("Enum.as_u32", o.as_u32(), if v > u32::MAX as u64 { Want::TooLarge } else { Want::Value(v as i128) })?;
    Ok(())
}

/// an INTEGER-like element whose identifier is spelled in any way, or truncated
fn odd_identifier(s: &mut Src, out: &mut Vec<u8>) {
    let class = if s.chance(2, 3) { 0 } else { s.below(4) as u8 };
    let cons = if s.chance(1, 8) { 0x20 } else { 0 };
    let tag: u8 = if s.chance(4, 5) { 2 } else { *s.pick(&[0u8, 1, 3, 4, 10, 16, 30]) };
    match s.weighted(&[3, 2, 3, 1]) {
        0 => out.push(class << 6 | cons | tag),
        1 => {
            // padded high form
            out.push(class << 6 | cons | 0x1f);
            for _ in 0..s.usize(6) {
                out.push(0x80);
            }
            out.push(tag);
        }
        2 => {
            // high form whose upper bits may be lost in a narrow tag number
            out.push(class << 6 | cons | 0x1f);
            let n = s.range(1, 5);
            let mut k = s.usize(n);
            for i in 0..n {
                if i == k {
                    out.push(0x80 | 1 << s.below(7));
                    if s.chance(1, 2) {
                        k = s.range(i + 1, n + 1);
                    }
                } else {
                    out.push(0x80);
                }
            }
            out.push(tag);
        }
        _ => {
            out.push(class << 6 | cons | 0x1f);
            for _ in 0..s.usize(7) {
                out.push(s.byte());
            }
        }
    }
}

fn agree<T: Into<i128> + Copy + std::fmt::Debug>(
    what: &str,
    b: &[u8],
    r: BerResult<'_, T>,
    g: &BerResult<'_>,
    via: impl Fn(&BerObject) -> Result<T, BerError>,
    plain: bool,
) -> Result<(), String> {
    let e = |x: String| Err(format!("{what} on {}: {x}", hex(b)));
    match (&r, g) {
        (Ok((rem, v)), Ok((grem, o))) => {
            if rem.len() != grem.len() {
                return e(format!("leaves {} octets, parsing the object leaves {}", rem.len(), grem.len()));
            }
            match via(o) {
                Ok(x) if x.into() == (*v).into() => Ok(()),
                x => e(format!("{v:?}, the accessor on the parsed object {x:?}")),
            }
        }
        (Ok((_, v)), Err(x)) => e(format!("{v:?}, parsing it as an INTEGER {x:?}")),
        (Err(x), Ok((_, o))) => match via(o) {
            Ok(v) if plain => e(format!("{x:?}, the accessor on the parsed object {v:?}")),
            _ => Ok(()),
        },
        (Err(x), Err(y)) => {
            // the size limit is promised for object parsers only
            let limit = matches!(y, nom::Err::Error(BerError::InvalidLength));
            if plain && !limit && matches!(x, nom::Err::Incomplete(_)) != matches!(y, nom::Err::Incomplete(_)) {
                return e(format!("{x:?}, parsing it as an INTEGER {y:?}"));
            }
            Ok(())
        }
    }
}

/// reading a number directly and parsing an INTEGER then reading it are the same thing
fn c07_agree(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let b = match s.weighted(&[3, 1]) {
        0 => {
            let mut b = vec![];
            odd_identifier(s, &mut b);
            let c = if s.chance(1, 10) { vec![] } else { gen::int_content(s, false) };
            match s.weighted(&[4, 2, 1]) {
                0 => gen::put_len(&mut b, c.len()),
                1 => {
                    let p = s.usize(6);
                    gen::put_len_padded(&mut b, c.len(), p)
                }
                _ => b.push(s.byte()),
            }
            b.extend(&c);
            b.extend(gen::trailing(s));
            if s.chance(1, 3) {
                let k = s.usize(b.len() + 1);
                b.truncate(k);
            }
            b
        }
        _ => {
            let der = s.chance(1, 2);
            gen::input(s, der)
        }
    };
    // a plain INTEGER identifier: both ways must say the same; otherwise the direct way may be stricter
    let plain = b.first() == Some(&2);
    for der in [false, true] {
        let g = if der { parse_der_integer(&b) } else { parse_ber_integer(&b) };
        if der {
            agree("parse_der_i32", &b, parse_der_i32(&b), &g, |o| o.as_i32(), plain)?;
            agree("parse_der_i64", &b, parse_der_i64(&b), &g, |o| o.as_i64(), plain)?;
            agree("parse_der_u32", &b, parse_der_u32(&b), &g, |o| o.as_u32(), plain)?;
            agree("parse_der_u64", &b, parse_der_u64(&b), &g, |o| o.as_u64(), plain)?;
        } else {
            agree("parse_ber_i32", &b, parse_ber_i32(&b), &g, |o| o.as_i32(), plain)?;
            agree("parse_ber_i64", &b, parse_ber_i64(&b), &g, |o| o.as_i64(), plain)?;
            agree("parse_ber_u32", &b, parse_ber_u32(&b), &g, |o| o.as_u32(), plain)?;
            agree("parse_ber_u64", &b, parse_ber_u64(&b), &g, |o| o.as_u64(), plain)?;
        }
        cov.label_if(g.is_ok(), "an INTEGER");
        cov.label_if(matches!(g, Err(nom::Err::Incomplete(_))), "cut short");
    }
    cov.label_if(b.first().map_or(false, |x| x & 0x1f == 0x1f), "long identifier");
    if b.len() > 3 {
        cov.nontrivial(&(3u8, &b), || format!("read directly and through an object: {}", hex(&b)));
    }
    Ok(())
}

fn c07_other(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let b = gen::one(s, &gen::BER);
    let Ok((_, o)) = parse_ber(&b) else { return Ok(()) };
    use BerObjectContent as C;
    let is_int = matches!(o.content, C::Integer(_));
    let signed_ok = is_int || matches!(o.content, C::Enum(_));
    let u_ok = signed_ok || matches!(o.content, C::BitString(..));
    let bad = |w: &str| Err(format!("{w} succeeds on {:?}", o.content));
    if !signed_ok {
        if o.as_i32().is_ok() {
            return bad("as_i32");
        }
        if o.as_i64().is_ok() {
            return bad("as_i64");
        }
    }
    if !is_int {
        if o.as_bigint().is_ok() {
            return bad("as_bigint");
        }
        if o.as_biguint().is_ok() {
            return bad("as_biguint");
        }
    }
    if !u_ok {
        if o.as_u32().is_ok() {
            return bad("as_u32");
        }
        if o.as_u64().is_ok() {
            return bad("as_u64");
        }
    }
    // the direct parsers refuse anything that is not tagged INTEGER
    if o.header.tag().0 != T_INT {
        if parse_ber_i32(&b).is_ok() || parse_ber_i64(&b).is_ok() || parse_ber_u32(&b).is_ok() || parse_ber_u64(&b).is_ok() {
            return Err(format!("a direct BER integer parser accepts {}", hex(&b)));
        }
        if parse_der_i32(&b).is_ok() || parse_der_i64(&b).is_ok() || parse_der_u32(&b).is_ok() || parse_der_u64(&b).is_ok() {
            return Err(format!("a direct DER integer parser accepts {}", hex(&b)));
        }
        cov.label("non-integer");
        if b.len() > 2 {
            cov.nontrivial(&(2u8, &b), || format!("not an integer: {}", hex(&b)));
        }
    }
    Ok(())
}

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        rule: "all integer contents of at most 2 octets (3 in the thorough tier), 2^k+d for k in 6..=72, both signs, d in -3..=3 and 0..=10 octets of sign padding, random and very long padded contents, enumerated contents, non-integers, INTEGER-like elements with every spelling of the identifier and length (cut short or not), read directly and through a parsed object; every accessor and direct parser compared with two's-complement arithmetic; non-trivial = content of 3 or more octets, accepted enumerated, or non-integer longer than 2 octets",
        subs: vec![
            Sub { name: "short", size: Size::Exhaustive(gen::SHORT2, gen::SHORT3), run: c07_short },
            Sub { name: "bounds", size: Size::Exhaustive(BOUNDS, BOUNDS), run: c07_bounds },
            Sub { name: "random", size: Size::Random(6_000_000, 80_000_000), run: c07_random },
            Sub { name: "enumerated", size: Size::Random(2_000_000, 20_000_000), run: c07_enum },
            Sub { name: "non-integers", size: Size::Random(1_200_000, 10_000_000), run: c07_other },
            Sub { name: "agree", size: Size::Random(2_000_000, 20_000_000), run: c07_agree },
        ],
        assumptions: &["reference arithmetic: i128 and octet strings"],
        debug_scale: 0.0,
    }
}

// ---------------------------------------------------------------- C08

fn bits_check(what: &str, o: &BerObject, u: u8, data: &[u8], far: usize) -> Result<(), String> {
    let e = |m: String| format!("{what} of BIT STRING, {u} unused, {}: {m}", hex(data));
    match &o.content {
        BerObjectContent::BitString(gu, gb) => {
            if *gu != u || gb.data != data {
                return Err(e(format!("content is {gu} unused, {}", hex(gb.data))));
            }
        }
        c => return Err(e(format!("content is {c:?}"))),
    }
    let Ok(r) = o.as_bitstring_ref() else { return Err(e("as_bitstring_ref fails".into())) };
    let Ok(v) = o.as_bitstring() else { return Err(e("as_bitstring fails".into())) };
    if r.data != data || v.data != data || v.as_ref() != data || o.as_slice().ok() != Some(data) {
        return Err(e("octets altered".into()));
    }
    let bit = |n: usize| n / 8 < data.len() && data[n / 8] >> (7 - n % 8) & 1 == 1;
    let total = data.len() * 8;
    let step = if total > 600 { 13 } else { 1 };
    let mut n = 0;
    while n < total + 24 {
        if r.is_set(n) != bit(n) || v.is_set(n) != bit(n) {
            return Err(e(format!("is_set({n}) is {}", r.is_set(n))));
        }
        n += step;
    }
    for n in [far, usize::MAX, usize::MAX - 7, 1 << 32, total, total.wrapping_sub(1), 1 << 60] {
        if r.is_set(n) != bit(n) {
            return Err(e(format!("is_set({n}) is {}", r.is_set(n))));
        }
    }
    let Some(sl) = r.as_bitslice() else { return Err(e("bit-slice view fails".into())) };
    let Ok(so) = o.as_bitslice() else { return Err(e("bit-slice view of the object fails".into())) };
    for s in [sl, so] {
        if s.len() != total {
            return Err(e(format!("bit-slice view has {} bits", s.len())));
        }
        for (k, x) in s.iter().enumerate() {
            if *x != bit(k) {
                return Err(e(format!("bit {k} of the bit-slice view is {}", *x)));
            }
        }
    }
    let keep = total as i64 - u as i64;
    let val: Option<u128> = if keep < 0 || keep > 64 {
        None
    } else {
        Some((0..keep as usize).fold(0u128, |a, k| a * 2 + bit(k) as u128))
    };
    for (name, got) in [("as_u64", o.as_u64()), ("content.as_u64", o.content.as_u64())] {
        match (got, val) {
            (Ok(x), Some(y)) if x as u128 == y => {}
            (Err(_), None) => {}
            (g, _) => return Err(e(format!("{name} gives {g:?}, expected {val:?}"))),
        }
    }
    let val32 = val.filter(|x| *x <= u32::MAX as u128);
    for (name, got) in [("as_u32", o.as_u32()), ("content.as_u32", o.content.as_u32())] {
        match (got, val32) {
            (Ok(x), Some(y)) if x as u128 == y => {}
            (Err(_), None) => {}
            (g, _) => return Err(e(format!("{name} gives {g:?}, expected {val32:?}"))),
        }
    }
    Ok(())
}

fn c08_check(u: u8, data: &[u8], far: usize, cov: &mut Cov) -> Result<(), String> {
    let o = BerObject::from_obj(BerObjectContent::BitString(u, BitStringObject { data }));
    bits_check("built object", &o, u, data, far)?;
    let mut c = vec![u];
    c.extend_from_slice(data);
    let b = gen::tlv(0, false, T_BITS, &c);
    let sound = u <= 7 && (u == 0 || !data.is_empty());
    let der_ok = sound && (u == 0 || data[data.len() - 1] & ((1u8 << u) - 1) == 0);
    for (what, r, must, may) in [
        ("parse_ber", parse_ber(&b), sound, true),
        ("parse_ber_bitstring", parse_ber_bitstring(&b), sound, true),
        ("parse_der", parse_der(&b), der_ok, der_ok),
        ("parse_der_bitstring", parse_der_bitstring(&b), der_ok, der_ok),
    ] {
        match r {
            Ok((rem, o)) => {
                if !may {
                    return Err(format!("{what} accepts BIT STRING with {u} unused bits: {}", hex(&b)));
                }
                check_rem(&b, rem, b.len())?;
                bits_check(what, &o, u, data, far)?
            }
            Err(e) => {
                if must {
                    return Err(format!("{what} refuses {}: {e:?}", hex(&b)));
                }
            }
        }
    }
    let keep = data.len() as i64 * 8 - u as i64;
    cov.label_if(keep < 0, "more unused bits than bits");
    cov.label_if((33..=64).contains(&keep), "33..=64 bits");
    cov.label_if(keep > 64, "more than 64 bits");
    cov.label_if(keep == 64 || keep == 32, "exactly 32 or 64 bits");
    cov.label_if(u > 7, "more than 7 unused");
    if !data.is_empty() && u > 0 {
        cov.nontrivial(&c, || format!("{u} unused bits, {}", hex(data)));
    }
    Ok(())
}

fn c08_small(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let i = s.below(256 * (1 + 256));
    let u = (i % 256) as u8;
    c08_check(u, &gen::short(i / 256), 9, cov)
}
/// every unused count x every length up to 44 octets, two fillings
fn c08_grid(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let i = s.below(GRID);
    let u = (i % 256) as u8;
    let n = (i / 256 % 45) as usize;
    let data: Vec<u8> = match i / 256 / 45 {
        0 => vec![0xff; n],
        1 => (0..n).map(|k| (k * 37 + 129) as u8).collect(),
        _ => (0..n).map(|k| if k == 0 { 0 } else { 0xa5 }).collect(),
    };
    c08_check(u, &data, 8 * n + 3, cov)
}
const GRID: u64 = 256 * 45 * 3;
fn c08_random(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let n = match s.weighted(&[6, 3, 1]) {
        0 => s.usize(10),
        1 => s.usize(40),
        _ if s.chance(1, 6) => s.lit(3000) as usize,
        _ => s.range(30, 300),
    };
    let mut data = gen::blob(s, n);
    if s.chance(1, 3) {
        for _ in 0..s.usize(n + 1) {
            let k = s.usize(n.max(1));
            if k < n {
                data[k] = 0;
            }
        }
    }
    let u = match s.weighted(&[4, 2, 1]) {
        0 => s.below(8) as u8,
        1 => s.byte(),
        _ if s.chance(1, 8) => s.lit(256) as u8,
        _ => *s.pick(&[8u8, 16, 63, 64, 65, 72, 128, 255, 254, 56, 32]),
    };
    if u < 8 && n > 0 && s.chance(1, 2) {
        data[n - 1] &= !(((1u16 << u) - 1) as u8);
    }
    let far = if s.chance(1, 8) { s.lit(u64::MAX) } else { s.u64() } as usize;
    c08_check(u, &data, far, cov)
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        rule: "all bit strings of at most 1 octet with every unused count 0..=255, every unused count x every length 0..=44 with three fillings, random contents up to 300 octets; every bit position up to 24 past the end plus far positions; numeric values compared with bit-by-bit arithmetic; non-trivial = non-empty data with a non-zero unused count",
        subs: vec![
            Sub { name: "small", size: Size::Exhaustive(256 * 257, 256 * 257), run: c08_small },
            Sub { name: "grid", size: Size::Exhaustive(GRID, GRID), run: c08_grid },
            Sub { name: "random", size: Size::Random(2_800_000, 40_000_000), run: c08_random },
        ],
        assumptions: &[],
        debug_scale: 0.0,
    }
}

// ---------------------------------------------------------------- C09

const STRINGS: [u32; 12] = [
    T_NUMERIC, T_PRINTABLE, T_T61, T_VIDEOTEX, T_IA5, T_GRAPHIC, T_VISIBLE, T_GENERAL, T_OBJDESC, T_UTF8, T_BMP, T_UNIVERSAL,
];

fn string_obj(what: &str, o: &BerObject, tag: u32, c: &[u8]) -> Result<(), String> {
    let d = dc(&o.content);
    let want = match tag {
        T_BMP => DC::Raw("bmp", c.to_vec()),
        T_UNIVERSAL => DC::Raw("universal", c.to_vec()),
        t => match std::str::from_utf8(c) {
            Ok(x) => DC::Text(text_name(t), x.to_string()),
            Err(_) => return Err(format!("{what}: accepted although it is not text")),
        },
    };
    if d != want {
        return Err(format!("{what}: {}", diff(&d, &want)));
    }
    if o.as_slice().ok() != Some(c) || o.content.as_slice().ok() != Some(c) {
        return Err(format!("{what}: as_slice gives {:?}", o.as_slice()));
    }
    if tag != T_BMP && tag != T_UNIVERSAL {
        let t = std::str::from_utf8(c).ok();
        if o.as_str().ok() != t || o.content.as_str().ok() != t {
            return Err(format!("{what}: as_str gives {:?}", o.as_str()));
        }
    }
    Ok(())
}

fn c09_content(tag: u32, c: &[u8], cov: &mut Cov) -> Result<(), String> {
    let ok = charset_ok(tag, c);
    let b = gen::tlv(0, false, tag, c);
    let err = |m: String| format!("string type {tag}, content {}: {m}", hex(c));
    let nested = gen::tlv(0, true, T_SEQ, &b);
    let imp = gen::tlv(2, false, 7, c);
    for der in [false, true] {
        let Some(t) = typed(tag) else { return Err("table".into()) };
        let implicit = if der {
            parse_der_tagged_implicit(Tag(7), parse_der_content(Tag(tag)))(&imp)
        } else {
            parse_ber_tagged_implicit(Tag(7), parse_ber_content(Tag(tag)))(&imp)
        };
        for (what, r) in [
            ("generic parser", generic(&b, der)),
            ("per-type parser", if der { (t.der)(&b) } else { (t.ber)(&b) }),
            ("implicit tag", implicit),
            ("inside a sequence", generic(&nested, der)),
        ] {
            match r {
                Ok((rem, o)) => {
                    if !ok {
                        return Err(err(format!("{what} (der={der}) accepts it, but it is outside the alphabet")));
                    }
                    if !rem.is_empty() {
                        return Err(err(format!("{what}: {} bytes left", rem.len())));
                    }
                    if what == "inside a sequence" {
                        match o.as_sequence() {
                            Ok(v) if v.len() == 1 => string_obj(what, &v[0], tag, c).map_err(err)?,
                            _ => return Err(err(format!("{what}: {:?}", o.content))),
                        }
                    } else {
                        string_obj(what, &o, tag, c).map_err(err)?
                    }
                }
                Err(e) => {
                    if ok {
                        return Err(err(format!("{what} (der={der}) refuses it: {e:?}")));
                    }
                }
            }
        }
        // content parser
        if let Ok((rest, h)) = header(&b, der) {
            let r = content_as(rest, tag, &h, 5, der);
            if r.is_ok() != ok {
                return Err(err(format!("content parser (der={der}) gives {r:?}")));
            }
        }
        // constructed encodings are refused
        let cons = gen::tlv(0, true, tag, &gen::tlv(0, false, tag, c));
        let flat = gen::tlv(0, true, tag, c);
        let mut ind = vec![0x20 | tag as u8, 0x80];
        ind.extend(gen::tlv(0, false, tag, c));
        ind.extend([0, 0]);
        for x in [&cons, &flat, &ind] {
            if generic(x, der).is_ok() || (if der { (t.der)(x) } else { (t.ber)(x) }).is_ok() {
                return Err(err(format!("constructed encoding {} accepted (der={der})", hex(x))));
            }
        }
    }
    cov.label_if(ok, "in the alphabet");
    cov.label_if(!ok, "outside the alphabet");
    if c.len() > 1 {
        cov.nontrivial(&(tag, c), || format!("type {tag}: {}", hex(c)));
    }
    Ok(())
}

/// every octet at the start, middle and end of a valid string, every type
fn c09_octets(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let i = s.below(12 * 256 * 5);
    let tag = STRINGS[(i % 12) as usize];
    let x = (i / 12 % 256) as u8;
    let c: Vec<u8> = match i / 12 / 256 {
        0 => vec![x],
        1 => vec![x, b'0', b'1'],
        2 => vec![b'0', x, b'1'],
        3 => vec![b'0', b'1', b'2', x],
        _ => {
            let mut v = vec![b'0'; 200];
            v[150] = x;
            v
        }
    };
    c09_content(tag, &c, cov)
}
/// all two-octet contents of every type
fn c09_pairs(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let i = s.below(12 * 65536);
    let tag = STRINGS[11 - (i / 65536) as usize];
    c09_content(tag, &[(i >> 8) as u8, i as u8], cov)
}
/// UTF-8: all lead octets x second octets x edge continuation octets
fn c09_utf8(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    const T: [u8; 6] = [0x7f, 0x80, 0x9f, 0xbf, 0xc0, 0x41];
    let i = s.below(48 * 256 * 36);
    let lead = 0xd0 + (i % 48) as u8;
    let second = (i / 48 % 256) as u8;
    let k = (i / 48 / 256) as usize;
    let mut c = vec![lead, second, T[k % 6]];
    if lead >= 0xf0 {
        c.push(T[k / 6]);
    }
    c09_content(T_UTF8, &c, cov)
}
/// UTF-16: units around the surrogate range in pairs and triples
fn c09_utf16(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    const U: [u16; 12] = [0, 0x41, 0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdc01, 0xdfff, 0xe000, 0xfffe, 0xffff];
    let i = s.below(12 * 12 * 12 * 2) as usize;
    let mut c = vec![];
    for u in [U[i % 12], U[i / 12 % 12], U[i / 144 % 12]] {
        c.extend(u.to_be_bytes());
    }
    if i / 1728 == 1 {
        c.pop();
    }
    c09_content(T_BMP, &c, cov)
}
fn c09_random(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let tag = *s.pick(&STRINGS);
    let bad = s.chance(1, 2);
    let c = gen::text_content(s, tag, bad);
    c09_content(tag, &c, cov)
}
/// text of one type under another type's tag
fn c09_cross(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let tag = *s.pick(&STRINGS);
    let other = *s.pick(&STRINGS);
    let c = gen::text_content(s, other, false);
    c09_content(tag, &c, cov)
}

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        rule: "12 string types x every octet at five positions, all two-octet contents of every type, UTF-8 lead/second octet products, UTF-16 surrogate triples, random contents in and slightly outside the alphabet, text of other types; each through generic, per-type, content, implicit-tag and nested parsing, BER and DER, plus constructed forms; non-trivial = content of at least 2 octets",
        subs: vec![
            Sub { name: "octets", size: Size::Exhaustive(12 * 256 * 5, 12 * 256 * 5), run: c09_octets },
            Sub { name: "pairs", size: Size::Exhaustive(12 * 65536, 12 * 65536), run: c09_pairs },
            Sub { name: "utf8", size: Size::Exhaustive(48 * 256 * 36, 48 * 256 * 36), run: c09_utf8 },
            Sub { name: "utf16", size: Size::Exhaustive(3456, 3456), run: c09_utf16 },
            Sub { name: "random", size: Size::Random(1_600_000, 20_000_000), run: c09_random },
            Sub { name: "cross", size: Size::Random(800_000, 10_000_000), run: c09_cross },
        ],
        assumptions: &["alphabets written out from the property statement; UTF-8 and UTF-16 validity reimplemented"],
        debug_scale: 0.0,
    }
}

// ---------------------------------------------------------------- C10

fn c10_check(gen_t: bool, c: &[u8], cov: &mut Cov) -> Result<(), String> {
    let tag = if gen_t { T_GENTIME } else { T_UTC };
    let b = gen::tlv(0, false, tag, c);
    let imp = gen::tlv(2, false, 3, c);
    let show = String::from_utf8_lossy(c).into_owned();
    let err = |m: String| format!("{} {show:?} ({}): {m}", if gen_t { "GeneralizedTime" } else { "UTCTime" }, hex(c));
    let Some(t) = typed(tag) else { return Err("table".into()) };
    let mut accepted = false;
    for der in [false, true] {
        let want = if der { refm::der(&b, 3) } else { refm::ber(&b, 3) };
        let got = generic(&b, der);
        against(if der { "parse_der" } else { "parse_ber" }, &b, &got, &want).map_err(err)?;
        let ty = if der { (t.der)(&b) } else { (t.ber)(&b) };
        against(if der { "DER per-type parser" } else { "BER per-type parser" }, &b, &ty, &want).map_err(err)?;
        if got.is_ok() != ty.is_ok() {
            return Err(err(format!("generic and per-type parser differ (der={der})")));
        }
        let i = if der {
            parse_der_tagged_implicit(Tag(3), parse_der_content(Tag(tag)))(&imp)
        } else {
            parse_ber_tagged_implicit(Tag(3), parse_ber_content(Tag(tag)))(&imp)
        };
        match (&i, &got) {
            (Ok((_, x)), Ok((_, y))) if dc(&x.content) == dc(&y.content) => {}
            (Err(_), Err(_)) => {}
            _ => return Err(err(format!("implicitly tagged (der={der}): {i:?}"))),
        }
        accepted |= got.is_ok();
    }
    cov.label_if(accepted, "accepted");
    cov.label_if(!accepted, "refused");
    if accepted || c.len() >= 11 {
        cov.nontrivial(&(gen_t, c), || format!("{} {show}", if gen_t { "gen" } else { "utc" }));
    }
    Ok(())
}

const ZONES: [&str; 8] = ["Z", "", "+0000", "-0000", "+0130", "-0130", "-0030", "+2359"];
/// every field 00..99, the others fixed, x forms x zones
fn c10_fields(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let mut i = s.below(FIELDS);
    let mut take = |n: u64| {
        let r = i % n;
        i /= n;
        r as usize
    };
    let v = take(100);
    let field = take(7);
    let gen_t = take(2) == 1;
    let zone = ZONES[take(8)];
    let form = take(4); // no seconds, seconds, fraction, comma fraction
    let mut f = [20usize, 49, 11, 28, 13, 45, 52];
    f[field] = v;
    let mut c = String::new();
    if gen_t {
        c += &format!("{:02}", f[0]);
    }
    c += &format!("{:02}{:02}{:02}{:02}{:02}", f[1], f[2], f[3], f[4], f[5]);
    if form > 0 {
        c += &format!("{:02}", f[6]);
    }
    if form == 2 {
        c += ".120";
    } else if form == 3 {
        c += ",5";
    }
    c += zone;
    c10_check(gen_t, c.as_bytes(), cov)
}
const FIELDS: u64 = 100 * 7 * 2 * 8 * 4;
/// every zone offset
fn c10_zone(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let i = s.below(10000 * 2 * 3);
    let off = i % 10000;
    let sign = if i / 10000 % 2 == 0 { '+' } else { '-' };
    match i / 20000 {
        0 => c10_check(false, format!("210203040506{sign}{off:04}").as_bytes(), cov),
        1 => c10_check(true, format!("20210203040506{sign}{off:04}").as_bytes(), cov),
        _ => c10_check(true, format!("20210203040506.007{sign}{off:04}").as_bytes(), cov),
    }
}
/// every fraction of up to 4 digits, some longer
fn c10_fraction(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let mut i = s.below(FRACT);
    let zone = ["Z", "", "+0100"][(i % 3) as usize];
    i /= 3;
    let sep = ['.', ','][(i % 2) as usize];
    i /= 2;
    let f = match i {
        0 => String::new(),
        1..=10 => format!("{}", i - 1),
        11..=110 => format!("{:02}", i - 11),
        111..=1110 => format!("{:03}", i - 111),
        1111..=11110 => format!("{:04}", i - 1111),
        _ => format!("{:05}", (i - 11111) * 997 % 100000),
    };
    c10_check(true, format!("19851106210627{sep}{f}{zone}").as_bytes(), cov)
}
const FRACT: u64 = 6 * (11111 + 40);
/// single-octet replacement, insertion and deletion in valid times
fn c10_corrupt(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    const BASE: [(&str, bool); 11] = [
        ("2102030405Z", false),
        ("210203040506Z", false),
        ("210203040506+0730", false),
        ("2102030405-0730", false),
        ("20210203040506Z", true),
        ("20210203040506", true),
        ("20210203040506.5Z", true),
        ("20210203040506.123", true),
        ("20210203040506,12-0145", true),
        ("202102030405Z", true),
        ("20210203040506+1400", true),
    ];
    let mut i = s.below(CORRUPT);
    let x = (i % 256) as u8;
    i /= 256;
    let pos = (i % 24) as usize;
    i /= 24;
    let ins = i % 2 == 1;
    i /= 2;
    let (t, g) = BASE[i as usize];
    let mut c = t.as_bytes().to_vec();
    if pos > c.len() {
        c.truncate(x as usize % (c.len() + 1));
    } else if ins {
        c.insert(pos, x);
    } else if pos < c.len() {
        c[pos] = x;
    } else if (x as usize) < c.len() {
        c.remove(x as usize);
    }
    c10_check(g, &c, cov)
}
const CORRUPT: u64 = 256 * 24 * 2 * 11;
fn c10_random(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let g = s.chance(1, 2);
    let bad = s.chance(1, 2);
    let der = s.chance(1, 3);
    let c = gen::time_content(s, g, der, bad);
    // the other type's text under this tag, now and then
    let g = if s.chance(1, 20) { !g } else { g };
    c10_check(g, &c, cov)
}
fn c10_year(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let y = s.below(10000);
    c10_check(true, format!("{y:04}1231235959Z").as_bytes(), cov)?;
    c10_check(false, format!("{:02}{:02}{:02}235959Z", y % 100, y / 100 % 14, y % 33).as_bytes(), cov)
}

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        rule: "every value 00..99 of every field x zone forms x seconds/fraction forms, every zone offset 0000..9999, every fraction of up to 4 digits, every year, every single-octet replacement/insertion/deletion/truncation in eleven base times, random times; fields compared with an independent decoder; non-trivial = accepted, or refused with at least 11 characters",
        subs: vec![
            Sub { name: "fields", size: Size::Exhaustive(FIELDS, FIELDS), run: c10_fields },
            Sub { name: "zone", size: Size::Exhaustive(60_000, 60_000), run: c10_zone },
            Sub { name: "fraction", size: Size::Exhaustive(FRACT, FRACT), run: c10_fraction },
            Sub { name: "corrupt", size: Size::Exhaustive(CORRUPT, CORRUPT), run: c10_corrupt },
            Sub { name: "year", size: Size::Exhaustive(10_000, 10_000), run: c10_year },
            Sub { name: "random", size: Size::Random(4_000_000, 60_000_000), run: c10_random },
        ],
        assumptions: &["zero month and day are accepted, as the library documents no calendar check"],
        debug_scale: 0.0,
    }
}
