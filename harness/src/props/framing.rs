//! C02, C03, C04
use crate::cmp::*;
use crate::driver::Prop;
use crate::engine::*;
use crate::gen::{self, hex};
use crate::parsers::*;
use crate::refm::{self, *};
use der_parser::asn1_rs::Tag;
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::BerResult;
use der_parser::nom;

// ---------------------------------------------------------------- C02

#[derive(Clone, Debug, PartialEq)]
enum Rep {
    Obj(D),
    Any(DH, Vec<u8>),
    Hdr(DH),
    Bytes(Vec<u8>),
    Int(i128),
    Objs(Vec<D>),
}


fn raw_of<'x>(h: &'x Header<'_>, out: &mut Vec<(usize, usize)>) {
    if let Some(r) = h.raw_tag() {
        out.push((r.as_ptr() as usize, r.len()));
    }
}

/// all slices inside an object, as (address, length)
fn held(o: &BerObject, out: &mut Vec<(usize, usize)>) {
    use BerObjectContent as C;
    raw_of(&o.header, out);
    let mut add = |s: &[u8]| out.push((s.as_ptr() as usize, s.len()));
    match &o.content {
        C::Integer(s) | C::OctetString(s) | C::BmpString(s) | C::UniversalString(s) => add(s),
        C::BitString(_, b) => add(b.data),
        C::OID(x) | C::RelativeOID(x) => add(x.as_bytes()),
        C::NumericString(s)
        | C::VisibleString(s)
        | C::PrintableString(s)
        | C::IA5String(s)
        | C::UTF8String(s)
        | C::T61String(s)
        | C::VideotexString(s)
        | C::ObjectDescriptor(s)
        | C::GraphicString(s)
        | C::GeneralString(s) => add(s.as_bytes()),
        C::Unknown(any) => {
            add(any.data);
            raw_of(&any.header, out);
        }
        C::Sequence(v) | C::Set(v) => v.iter().for_each(|x| held(x, out)),
        C::Tagged(_, _, x) => held(x, out),
        C::Optional(Some(x)) => held(x, out),
        _ => {}
    }
}

type Out = Option<(usize, usize, Rep, Vec<(usize, usize)>)>;

fn of_obj(r: BerResult<'_>) -> Out {
    let (rem, o) = r.ok()?;
    let mut h = vec![];
    held(&o, &mut h);
    Some((rem.as_ptr() as usize, rem.len(), Rep::Obj(dump(&o)), h))
}

const OPS: [&str; 26] = [
    "parse_ber",
    "parse_der",
    "parse_ber_recursive",
    "parse_der_recursive",
    "parse_ber_<type>",
    "parse_der_<type>",
    "parse_ber_any",
    "ber header",
    "der header",
    "parse_ber_slice",
    "parse_der_slice",
    "parse_ber_container",
    "parse_der_container",
    "parse_ber_i32/u64",
    "parse_der_i64/u32",
    "ber header+content",
    "der header+content",
    "parse_ber_sequence_of/set_of",
    "parse_der_sequence_of/set_of",
    "parse_ber_tagged_explicit",
    "parse_der_tagged_explicit",
    "parse_ber_tagged_implicit",
    "parse_der_tagged_implicit",
    "parse_ber_any_with_tag_r",
    "parse_ber_with_tag",
    "parse_der_with_tag",
];

fn op(k: usize, b: &[u8], n: usize) -> Out {
    let h = read_hdr(b, 0).ok();
    let tag = h.as_ref().map(|h| h.tag).unwrap_or(0);
    let der = OPS[k].contains("der ") || OPS[k].contains("_der");
    match k {
        0 => of_obj(parse_ber(b)),
        1 => of_obj(parse_der(b)),
        2 | 3 => of_obj(recursive(b, n, der)),
        4 => of_obj((typed(tag)?.ber)(b)),
        5 => of_obj((typed(tag)?.der)(b)),
        6 => {
            let (rem, any) = parse_ber_any(b).ok()?;
            let mut hs = vec![(any.data.as_ptr() as usize, any.data.len())];
            raw_of(&any.header, &mut hs);
            Some((rem.as_ptr() as usize, rem.len(), Rep::Any(dh(&any.header), any.data.to_vec()), hs))
        }
        7 | 8 => {
            let (rem, h) = header(b, der).ok()?;
            let mut hs = vec![];
            raw_of(&h, &mut hs);
            Some((rem.as_ptr() as usize, rem.len(), Rep::Hdr(dh(&h)), hs))
        }
        9 | 10 => {
            let (rem, s) = slice_of(b, tag, der).ok()?;
            Some((rem.as_ptr() as usize, rem.len(), Rep::Bytes(s.to_vec()), vec![(s.as_ptr() as usize, s.len())]))
        }
        11 | 12 => {
            let (rem, (s, h)) = container(b, der).ok()?;
            Some((rem.as_ptr() as usize, rem.len(), Rep::Any(dh(&h), s.to_vec()), vec![(s.as_ptr() as usize, s.len())]))
        }
        13 => {
            if n % 2 == 0 {
                let (rem, v) = parse_ber_i32(b).ok()?;
                Some((rem.as_ptr() as usize, rem.len(), Rep::Int(v as i128), vec![]))
            } else {
                let (rem, v) = parse_ber_u64(b).ok()?;
                Some((rem.as_ptr() as usize, rem.len(), Rep::Int(v as i128), vec![]))
            }
        }
        14 => {
            if n % 2 == 0 {
                let (rem, v) = parse_der_i64(b).ok()?;
                Some((rem.as_ptr() as usize, rem.len(), Rep::Int(v as i128), vec![]))
            } else {
                let (rem, v) = parse_der_u32(b).ok()?;
                Some((rem.as_ptr() as usize, rem.len(), Rep::Int(v as i128), vec![]))
            }
        }
        15 | 16 => {
            let (rest, h) = header(b, der).ok()?;
            let (rem, c) = content_as(rest, tag, &h, n.max(1), der).ok()?;
            let o = BerObject::from_header_and_content(h, c);
            let mut hs = vec![];
            held(&o, &mut hs);
            Some((rem.as_ptr() as usize, rem.len(), Rep::Obj(dump(&o)), hs))
        }
        17 => match tag {
            T_SET => {
                let (rem, v) = parse_ber_set_of_v(parse_ber)(b).ok()?;
                Some((rem.as_ptr() as usize, rem.len(), Rep::Objs(v.iter().map(dump).collect()), vec![]))
            }
            _ => of_obj(parse_ber_sequence_of(parse_ber)(b)),
        },
        18 => match tag {
            T_SET => of_obj(parse_der_set_of(parse_der)(b)),
            _ => {
                let (rem, v) = parse_der_sequence_of_v(parse_der)(b).ok()?;
                Some((rem.as_ptr() as usize, rem.len(), Rep::Objs(v.iter().map(dump).collect()), vec![]))
            }
        },
        19 => of_obj(parse_ber_tagged_explicit(Tag(tag), parse_ber)(b)),
        20 => of_obj(parse_der_tagged_explicit(Tag(tag), parse_der)(b)),
        21 | 22 => {
            let t = Tag([T_OCTETS, T_INT, T_SEQ, T_UTF8][n % 4]);
            if der {
                of_obj(parse_der_tagged_implicit(Tag(tag), parse_der_content(t))(b))
            } else {
                of_obj(parse_ber_tagged_implicit(Tag(tag), parse_ber_content(t))(b))
            }
        }
        23 => of_obj(parse_ber_any_with_tag_r(b, Tag(tag), n)),
        24 | 25 => of_obj(with_tag(b, tag, der)),
        _ => None,
    }
}

fn c02_check(b: &[u8], suffix: &[u8], n: usize, cov: &mut Cov) -> Result<(), String> {
    let hdr = read_hdr(b, 0);
    let mut accepted = false;
    let mut full = b.to_vec();
    full.extend_from_slice(suffix);
    for k in 0..OPS.len() {
        let name = OPS[k];
        let Some((ra, rl, rep, hs)) = op(k, b, n) else { continue };
        let base = b.as_ptr() as usize;
        let end = match &hdr {
            Ok(h) if k == 7 || k == 8 => h.body,
            Ok(h) => match frame(b, h) {
                Ok((_, e)) => e,
                Err(f) => return Err(format!("{name} accepts {}, which holds no complete element ({f:?})", hex(b))),
            },
            Err(f) => return Err(format!("{name} accepts {}, which has no valid header ({f:?})", hex(b))),
        };
        accepted |= k < 2;
        if rl != b.len() - end || (rl > 0 && ra != base + end) {
            return Err(format!(
                "{name} on {}: remainder of {rl} bytes, but the element ends at offset {end} of {}",
                hex(b),
                b.len()
            ));
        }
        for (a, l) in &hs {
            if *l > 0 && !(*a >= base && a + l <= base + end) {
                return Err(format!("{name} on {}: result holds a slice outside the element", hex(b)));
            }
        }
        // appended bytes must not matter
        match op(k, &full, n) {
            Some((ra2, rl2, rep2, _)) => {
                let fb = full.as_ptr() as usize;
                if rep2 != rep {
                    return Err(format!("{name} on {}: result changes when {} is appended: {}", hex(b), hex(suffix), diff(&rep2, &rep)));
                }
                if rl2 != full.len() - end || (rl2 > 0 && ra2 != fb + end) {
                    return Err(format!("{name} on {}: consumes a different extent when {} is appended", hex(b), hex(suffix)));
                }
            }
            None => return Err(format!("{name} accepts {} but not with {} appended", hex(b), hex(suffix))),
        }
        // and bytes after the element can be removed
        match op(k, &b[..end], n) {
            Some((_, rl3, rep3, _)) => {
                if rep3 != rep || rl3 != 0 {
                    return Err(format!("{name} on {}: result changes without the trailing bytes", hex(b)));
                }
            }
            None => {
                return Err(format!("{name} accepts {} but not without its {} trailing bytes", hex(b), b.len() - end));
            }
        }
    }
    // exact positions of the slices, from the model
    for der in [false, true] {
        if let Ok((_, o)) = generic(b, der) {
            if let Ok(p) = refm::ber(b, SKIP_DEPTH) {
                check_borrow(b, &o, &p.node).map_err(|e| format!("{}: {e}", hex(b)))?;
            }
        }
    }
    if accepted {
        cov.label("accepted");
        if let Ok(h) = &hdr {
            cov.label_if(h.len == Len::Indef, "indefinite");
            cov.label_if(h.class != 0, "non-universal");
            cov.label_if(h.tag >= 31, "high tag");
            cov.label_if(h.cons && h.class == 0, "container");
            if let Ok((_, e)) = frame(b, h) {
                cov.label_if(e < b.len(), "with trailing bytes");
                if h.cons || e < b.len() || e > 10 {
                    cov.nontrivial(&full, || format!("{} + {}", hex(b), hex(suffix)));
                }
            }
        }
    }
    Ok(())
}

fn c02_random(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let der = s.chance(1, 3);
    let n = [50usize, 3, 2, 1][s.weighted(&[5, 1, 1, 1])];
    let b = gen::input(s, der);
    let mut suffix = gen::trailing(s);
    if suffix.is_empty() {
        suffix = vec![*s.pick(&[0u8, 0xff, 0x30, 0x80])];
    }
    c02_check(&b, &suffix, n, cov)
}

fn c02_large(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let b = gen::large(s.u64());
    c02_check(&b, &[0x30, 0, 0], 50, cov)
}

fn c02_big(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let b = gen::big(s);
    let n = s.range(1, 50);
    c02_check(&b, &[0x30, 0, 0], n, cov)
}

fn c02_short(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let b = gen::short(s.below(gen::SHORT3));
    c02_check(&b, &[0, 0], 50, cov)
}

/// indefinite-length elements nested and surrounded by look-alikes of end-of-contents
fn indef(s: &mut Src, depth: usize, out: &mut Vec<u8>) {
    let (class, tag) = match s.below(4) {
        0 | 1 => (0, *s.pick(&[T_SEQ, T_SET])),
        2 => (2, s.below(4) as u32),
        _ => (s.below(3) as u8 + 1, gen::other_tag(s)),
    };
    gen::put_tag(out, class, true, tag);
    out.push(0x80);
    for _ in 0..s.usize(4) {
        match s.below(7) {
            0 | 1 if depth < 6 => indef(s, depth + 1, out),
            2 => out.extend_from_slice(s.pick::<&[u8]>(&[
                &[0x80, 0],
                &[0x40, 0],
                &[0xc0, 0],
                &[0xa0, 0],
                &[0x20, 0],
                &[0x04, 2, 0, 0],
                &[0x30, 2, 0x05, 0],
                &[0x02, 1, 0],
                &[0x05, 0],
                &[0x04, 0x81, 0],
                &[0x04, 0],
                &[0x00, 0x81, 0x00],
                &[0xbf, 0x20, 0],
                &[0x30, 0x80, 0, 0],
                &[0x24, 0x80, 4, 1, 0, 0, 0],
            ])),
            3 => out.extend(gen::one(s, &gen::BER)),
            _ => {
                let mut budget = 3;
                gen::element(s, &gen::BER, 5, &mut budget, out)
            }
        }
    }
    out.extend_from_slice(&[0, 0]);
}

fn c02_indef(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let mut b = vec![];
    indef(s, 0, &mut b);
    b.extend(gen::trailing(s));
    if s.chance(1, 6) {
        gen::mutate(s, &mut b);
    }
    c02_check(&b, &[0, 0, 0x30], 50, cov)
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        rule: "structured BER/DER elements (valid, faulty, mutated, byte soup, nested indefinite lengths with look-alikes of 00 00), all inputs of at most 2 octets (3 in the thorough tier); each given to 26 entry points, with and without appended bytes; non-trivial = accepted by a generic parser and constructed, longer than 10 octets or followed by trailing bytes",
        subs: vec![
            Sub { name: "short", size: Size::Exhaustive(gen::SHORT2, gen::SHORT3), run: c02_short },
            Sub { name: "random", size: Size::Random(1_200_000, 20_000_000), run: c02_random },
            Sub { name: "indefinite", size: Size::Random(800_000, 10_000_000), run: c02_indef },
            Sub { name: "large", size: Size::List(gen::large_huge_codes), run: c02_large },
            Sub { name: "big", size: Size::Random(3_000, 60_000), run: c02_big },
        ],
        assumptions: &["element extents are recomputed by an independent model of X.690 framing"],
        debug_scale: 0.0,
    }
}

// ---------------------------------------------------------------- C03

fn c03_check(b: &[u8], cov: &mut Cov) -> Result<(), String> {
    let want = refm::ber(b, SKIP_DEPTH);
    let got = parse_ber(b);
    against("parse_ber", b, &got, &want).map_err(|e| format!("{}: {e}", hex(b)))?;
    match &want {
        Ok(p) => {
            if let Ok((_, o)) = &got {
                // header octets
                let g = dh(&o.header);
                if let Some(r) = &g.raw {
                    if r[..] != b[..p.node.h.tag_end] {
                        return Err(format!("{}: identifier octets reported as {}", hex(b), hex(r)));
                    }
                }
            }
            cov.label_if(p.lenient, "tolerated");
            cov.label_if(!p.lenient, "well-formed");
            cov.label_if(p.node.any_indef(), "indefinite");
            cov.label_if(p.node.depth() > 2, "nested");
            cov.label_if(!p.node.h.minimal_len, "non-minimal length");
            cov.label_if(p.node.h.tag >= 31, "high tag");
            cov.label_if(p.node.val == Val::Unknown, "unknown");
            if p.node.end > 2 {
                cov.nontrivial(b, || hex(b));
            }
        }
        Err(f) => {
            cov.label_if(f.incomplete, "incomplete");
            cov.label_if(f.depth, "depth");
            cov.label_if(f.reject, "malformed");
            if f.reject && b.len() > 3 {
                cov.nontrivial(b, || hex(b));
            }
        }
    }
    Ok(())
}

fn c03_random(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let b = gen::input(s, false);
    c03_check(&b, cov)
}
fn c03_indef(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let mut b = vec![];
    indef(s, 0, &mut b);
    b.extend(gen::trailing(s));
    if s.chance(1, 4) {
        gen::mutate(s, &mut b);
    }
    c03_check(&b, cov)
}
fn c03_short(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    c03_check(&gen::short(s.below(gen::SHORT3)), cov)
}
/// every identifier octet x some contents x length forms
fn c03_ident(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let mut b = vec![s.byte()];
    if b[0] & 0x1f == 0x1f {
        for _ in 0..s.usize(7) {
            b.push(*s.pick(&[0x80u8, 0x81, 0x8f, 0x90, 0xff, 0x83]));
        }
        b.push(*s.pick(&[0u8, 1, 0x1e, 0x1f, 0x7f]));
    }
    let tag = (b[0] & 0x1f) as u32;
    let content = if b[0] >> 6 == 0 && gen::LEAVES.contains(&tag) {
        gen::leaf_content(s, tag, &gen::BER, false)
    } else if b[0] & 0x20 != 0 {
        let mut c = vec![];
        for _ in 0..s.usize(3) {
            c.extend(gen::one(s, &gen::BER));
        }
        c
    } else {
        let n = s.usize(6);
        s.bytes(n)
    };
    match s.below(4) {
        0 => {
            let extra = s.usize(30);
            gen::put_len_padded(&mut b, content.len(), extra);
            b.extend(content);
        }
        1 => {
            b.push(0x80);
            b.extend(content);
            b.extend([0, 0]);
        }
        _ => {
            gen::put_len(&mut b, content.len());
            b.extend(content);
        }
    }
    c03_check(&b, cov)
}
fn c03_large(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let b = gen::large(s.u64());
    c03_check(&b, cov)
}
fn c03_big(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    c03_check(&gen::big(s), cov)
}
fn c03_lead(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let idx = s.u64();
    c03_check(&gen::lead(idx, &mut Src::from_seed(idx)), cov)
}
/// a well-formed tree in which exactly one member, at any depth, is damaged
fn c03_member(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let depth = s.range(1, 6);
    let mut b = match s.below(3) {
        0 => gen::one(s, &gen::BER_FAULTY),
        _ => {
            let tag = *s.pick(&gen::LEAVES);
            let c = gen::leaf_content(s, tag, &gen::BER, true);
            let mut o = vec![];
            gen::emit(s, &gen::BER_FAULTY, &mut o, 0, false, tag, &c, false);
            o
        }
    };
    for _ in 0..depth {
        let mut c = vec![];
        let mut bud = 4;
        for _ in 0..s.usize(3) {
            gen::element(s, &gen::BER, 4, &mut bud, &mut c);
        }
        c.extend(&b);
        for _ in 0..s.usize(3) {
            gen::element(s, &gen::BER, 4, &mut bud, &mut c);
        }
        let mut o = vec![];
        let tag = if s.chance(1, 3) { T_SET } else { T_SEQ };
        gen::emit(s, &gen::BER, &mut o, 0, true, tag, &c, true);
        b = o;
    }
    c03_check(&b, cov)
}

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        rule: "all inputs of at most 2 octets (3 in the thorough tier), every identifier octet with valid contents in every length form, structured trees (valid, faulty, mutated), nested indefinite lengths, trees with one damaged member, byte soup; verdict and value compared with an independent X.690 decoder; non-trivial = accepted element longer than 2 octets or malformed input longer than 3",
        subs: vec![
            Sub { name: "short", size: Size::Exhaustive(gen::SHORT2, gen::SHORT3), run: c03_short },
            Sub { name: "random", size: Size::Random(6_000_000, 60_000_000), run: c03_random },
            Sub { name: "indefinite", size: Size::Random(2_000_000, 20_000_000), run: c03_indef },
            Sub { name: "identifier", size: Size::Random(2_000_000, 20_000_000), run: c03_ident },
            Sub { name: "large", size: Size::List(gen::large_huge_codes), run: c03_large },
            Sub { name: "big", size: Size::Random(6_000, 100_000), run: c03_big },
            Sub { name: "leading octets", size: Size::Exhaustive(gen::LEADS, gen::LEADS), run: c03_lead },
            Sub { name: "damaged member", size: Size::Random(2_000_000, 20_000_000), run: c03_member },
        ],
        assumptions: &["reference decoder written from X.690 and the property statement"],
        debug_scale: 0.0,
    }
}

// ---------------------------------------------------------------- C04

fn is_incomplete<T>(r: &BerResult<'_, T>) -> bool {
    matches!(r, Err(nom::Err::Incomplete(_)))
}

fn verdict<T>(r: &BerResult<'_, T>) -> String {
    match r {
        Ok((rem, _)) => format!("accepted, rest {} bytes", rem.len()),
        Err(e) => format!("{e:?}"),
    }
}

fn cuts(s: &mut Src, end: usize, h: &Hdr) -> Vec<usize> {
    if end <= 48 {
        (0..end).collect()
    } else {
        let mut v: Vec<usize> = (0..(h.body + 3).min(end)).collect();
        v.extend([end - 1, end - 2, end - 3, end / 2]);
        for _ in 0..12 {
            v.push(s.usize(end));
        }
        v.retain(|&k| k < end);
        v
    }
}

fn c04_large(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let e = gen::large(s.u64());
    c04_cut(s, &e, cov)
}

fn c04_big(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let e = gen::big(s);
    c04_cut(s, &e, cov)
}

fn c04_prefixes(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let der = s.chance(1, 2);
    let e = match s.weighted(&[5, 2, 1]) {
        0 => gen::one(s, if der { &gen::DER } else { &gen::BER }),
        1 => gen::one(s, if der { &gen::DER_FAULTY } else { &gen::BER_FAULTY }),
        _ => {
            let mut v = vec![];
            indef(s, 0, &mut v);
            v
        }
    };
    c04_cut(s, &e, cov)
}

fn c04_cut(s: &mut Src, e: &[u8], cov: &mut Cov) -> Result<(), String> {
    let Ok(h) = read_hdr(e, 0) else { return Ok(()) };
    let Ok((_, end)) = frame(e, &h) else { return Ok(()) };
    let e = &e[..end];
    let itag = *s.pick(&[T_OCTETS, T_SEQ, T_INT, T_UTF8]);
    for k in cuts(s, end, &h) {
        let p = &e[..k];
        let fail = |what: &str, v: String| -> Result<(), String> {
            Err(format!("{what} on the first {k} of {end} octets of {}: {v}", hex(e)))
        };
        macro_rules! must {
            ($what:expr, $e:expr) => {{
                let r = $e;
                if !is_incomplete(&r) {
                    return fail($what, verdict(&r));
                }
            }};
        }
        macro_rules! refuse {
            ($what:expr, $e:expr) => {{
                let r = $e;
                if r.is_ok() {
                    return fail($what, verdict(&r));
                }
            }};
        }
        must!("parse_ber", parse_ber(p));
        must!("parse_ber_any", parse_ber_any(p));
        must!("parse_ber_recursive", parse_ber_recursive(p, 50));
        if h.len != Len::Indef {
            must!("parse_der", parse_der(p));
            must!("parse_der_recursive", parse_der_recursive(p, 50));
        } else {
            refuse!("parse_der", parse_der(p));
        }
        // per-type parsers; an identifier cut short may be refused before the tag is known
        if let Some(t) = typed(h.tag) {
            must!(t.name, (t.ber)(p));
            if h.len != Len::Indef {
                must!(t.name, (t.der)(p));
            } else {
                refuse!(t.name, (t.der)(p));
            }
        }
        must!("parse_ber_with_tag", with_tag(p, h.tag, false));
        if h.len != Len::Indef {
            must!("parse_der_with_tag", with_tag(p, h.tag, true));
        }
        for d in [false, true] {
            if d && h.len == Len::Indef {
                refuse!("der header", header(p, true));
                continue;
            }
            let hd = header(p, d);
            if k < h.body {
                if !is_incomplete(&hd) {
                    return fail("element header", verdict(&hd));
                }
            } else {
                match hd {
                    Ok((rest, hd)) => must!("content after header", content_as(rest, h.tag, &hd, 50, d)),
                    Err(e) => return fail("element header (complete)", format!("{e:?}")),
                }
            }
        }
        // everything else must at least refuse
        refuse!("parse_ber_slice", slice_of(p, h.tag, false));
        refuse!("parse_der_slice", slice_of(p, h.tag, true));
        refuse!("parse_ber_container", container(p, false));
        refuse!("parse_der_container", container(p, true));
        macro_rules! ints {
            ($m:ident) => {{
                $m!("parse_ber_i32", parse_ber_i32(p));
                $m!("parse_ber_i64", parse_ber_i64(p));
                $m!("parse_ber_u32", parse_ber_u32(p));
                $m!("parse_ber_u64", parse_ber_u64(p));
                $m!("parse_der_i32", parse_der_i32(p));
                $m!("parse_der_i64", parse_der_i64(p));
                $m!("parse_der_u32", parse_der_u32(p));
                $m!("parse_der_u64", parse_der_u64(p));
            }};
        }
        if h.tag == T_INT && h.class == 0 && !h.cons && h.len != Len::Indef {
            ints!(must)
        } else {
            ints!(refuse)
        }
        refuse!("parse_ber_sequence_of", parse_ber_sequence_of(parse_ber)(p));
        refuse!("parse_ber_set_of", parse_ber_set_of(parse_ber)(p));
        refuse!("parse_der_sequence_of", parse_der_sequence_of(parse_der)(p));
        refuse!("parse_der_set_of", parse_der_set_of(parse_der)(p));
        refuse!("parse_ber_tagged_explicit", parse_ber_tagged_explicit(Tag(h.tag), parse_ber)(p));
        refuse!("parse_der_tagged_explicit", parse_der_tagged_explicit(Tag(h.tag), parse_der)(p));
        refuse!("parse_ber_tagged_implicit", parse_ber_tagged_implicit(Tag(h.tag), parse_ber_content(Tag(itag)))(p));
        refuse!("parse_der_tagged_implicit", parse_der_tagged_implicit(Tag(h.tag), parse_der_content(Tag(itag)))(p));
    }
    cov.label_if(h.len == Len::Indef, "indefinite");
    cov.label_if(h.tag >= 31, "high tag");
    cov.label_if(h.cons, "constructed");
    if end > 2 {
        cov.nontrivial(e, || format!("all cuts of {}", hex(e)));
    }
    Ok(())
}

/// feed the input piece by piece until the answer is final
fn c04_feed(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let der = s.chance(1, 2);
    let b = gen::input(s, der);
    let whole = generic(&b, der);
    let mut have = 0;
    let mut steps = 0;
    loop {
        let r = generic(&b[..have], der);
        if !is_incomplete(&r) {
            let same = match (&r, &whole) {
                (Ok((_, x)), Ok((_, y))) => dump(x) == dump(y),
                (Err(x), Err(y)) => ec(x) == ec(y),
                _ => false,
            };
            if !same {
                return Err(format!(
                    "{}: final answer after {have} octets is {}, on the whole input {}",
                    hex(&b),
                    verdict(&r),
                    verdict(&whole)
                ));
            }
            break;
        }
        if have == b.len() {
            if !is_incomplete(&whole) {
                return Err(format!("{}: answers differ for the same input", hex(&b)));
            }
            break;
        }
        have = (have + s.range(1, 1 + b.len() / 6)).min(b.len());
        steps += 1;
    }
    cov.label_if(whole.is_ok(), "accepted");
    cov.label_if(whole.is_err(), "refused");
    if steps > 2 {
        cov.nontrivial(&b, || format!("fed in {steps} pieces: {}", hex(&b)));
    }
    Ok(())
}

/// the outermost element is complete: never 'incomplete'
fn c04_complete_check(b: &[u8], n: usize, cov: &mut Cov) -> Result<(), String> {
    for der in [false, true] {
        let Ok(h) = read_hdr(b, 0) else { return Ok(()) };
        let f = frame(b, &h);
        if f.is_err() {
            return Ok(());
        }
        let mut list: Vec<(&str, BerResult<'_>)> = vec![
            ("generic parser", generic(b, der)),
            ("recursive parser", recursive(b, n, der)),
            ("parser with tag", with_tag(b, h.tag, der)),
        ];
        if let Some(t) = typed(h.tag) {
            list.push((t.name, if der { (t.der)(b) } else { (t.ber)(b) }));
        }
        for (what, r) in &list {
            if is_incomplete(r) {
                return Err(format!("{what} (der={der}, limit {n}) asks for more data on {}, which is complete", hex(b)));
            }
        }
        if der {
            cov.label("complete outermost element");
            cov.label_if(list[0].1.is_err(), "complete but malformed");
            if list[0].1.is_err() && h.cons {
                cov.nontrivial(b, || hex(b));
            }
        }
    }
    Ok(())
}

fn c04_complete(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    // a container whose members are cut short or damaged
    let der = s.chance(1, 2);
    let mut b = gen::input(s, der);
    for _ in 0..s.usize(4) {
        let mut c = vec![];
        if s.chance(1, 3) {
            c.extend(gen::one(s, &gen::BER));
        }
        if s.chance(1, 2) {
            let k = s.usize(b.len() + 1);
            b.truncate(k);
        }
        c.extend(&b);
        let tag = if s.chance(1, 3) { T_SET } else { T_SEQ };
        let mut o = vec![];
        let class = if s.chance(1, 6) { 2 } else { 0 };
        gen::emit(s, if der { &gen::DER } else { &gen::BER }, &mut o, class, true, tag, &c, true);
        b = o;
    }
    let n = *s.pick(&[50usize, 0, 1, 2, 3]);
    c04_complete_check(&b, n, cov)
}
fn c04_short(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    c04_complete_check(&gen::short(s.below(gen::SHORT3)), 50, cov)
}

pub fn c04() -> Prop {
    Prop {
        id: "C04",
        rule: "every cut point (boundary cuts plus a sample beyond 48 octets) of generated elements for all parser families; piecewise feeding; complete containers around truncated or damaged members; all inputs of at most 2 octets; non-trivial = element longer than 2 octets cut everywhere, or fed in more than 2 pieces, or complete constructed but refused",
        subs: vec![
            Sub { name: "short", size: Size::Exhaustive(gen::SHORT2, gen::SHORT3), run: c04_short },
            Sub { name: "prefixes", size: Size::Random(480_000, 8_000_000), run: c04_prefixes },
            Sub { name: "large", size: Size::List(gen::large_codes), run: c04_large },
            Sub { name: "big", size: Size::Random(1_500, 30_000), run: c04_big },
            Sub { name: "feed", size: Size::Random(1_600_000, 20_000_000), run: c04_feed },
            Sub { name: "complete", size: Size::Random(2_400_000, 30_000_000), run: c04_complete },
        ],
        assumptions: &["element extents are recomputed by an independent model of X.690 framing"],
        debug_scale: 0.0,
    }
}

