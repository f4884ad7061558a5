//! C05, C06
use crate::cmp::*;
use crate::driver::Prop;
use crate::engine::*;
use crate::gen::{self, hex};
use crate::parsers::*;
use crate::refm::{self, *};
use der_parser::asn1_rs::Length;
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::BerResult;

// ---------------------------------------------------------------- C05

fn c05_check(b: &[u8], cov: &mut Cov) -> Result<(), String> {
    let want = refm::der(b, SKIP_DEPTH);
    let got = parse_der(b);
    let ber = parse_ber(b);
    against("parse_der", b, &got, &want).map_err(|e| format!("{}: {e}", hex(b)))?;
    if let Ok((rem, o)) = &got {
        match &ber {
            Ok((rem2, o2)) => {
                if rem.len() != rem2.len() || no_raw(&dump(o)) != no_raw(&dump(o2)) {
                    return Err(format!("{}: DER and BER parsers differ: {}", hex(b), diff(&dump(o), &dump(o2))));
                }
            }
            Err(e) => return Err(format!("{}: accepted by the DER parser, refused by the BER parser ({e:?})", hex(b))),
        }
    }
    // the per-type parser is under the same rules (universal elements only)
    if let Ok(h) = read_hdr(b, 0) {
        if let (0, Some(t)) = (h.class, typed(h.tag)) {
            let r = (t.der)(b);
            match (&r, &got) {
                (Ok((ra, x)), Ok((rb, y))) => {
                    if ra.len() != rb.len() || no_raw(&dump(x)) != no_raw(&dump(y)) {
                        return Err(format!("{}: {} in DER differs from parse_der: {}", hex(b), t.name, diff(&dump(x), &dump(y))));
                    }
                }
                (Err(_), Err(_)) => {}
                (Ok(_), Err(e)) => {
                    return Err(format!("{}: DER variant of {} accepts what parse_der refuses ({e:?})", hex(b), t.name))
                }
                (Err(e), Ok(_)) => {
                    return Err(format!("{}: DER variant of {} refuses ({e:?}) what parse_der accepts", hex(b), t.name))
                }
            }
        }
    }
    match (&got, &ber) {
        (Ok(_), _) => {
            cov.label("DER accepted");
            if b.len() > 2 {
                cov.nontrivial(b, || hex(b));
            }
        }
        (Err(_), Ok(_)) => {
            cov.label("BER only");
            cov.nontrivial(b, || format!("BER, not DER: {}", hex(b)));
        }
        _ => cov.label("refused by both"),
    }
    Ok(())
}

/// a leaf that is valid BER but breaks exactly one DER rule (or none: control group)
fn der_fault(s: &mut Src) -> (&'static str, Vec<u8>) {
    let mut o = vec![];
    let name = match s.below(14) {
        0 => {
            let v = 1 + s.below(254) as u8;
            o.extend([1, 1, v]);
            "boolean"
        }
        1 => {
            let mut c = gen::int_octets(gen::int_value(s));
            let pad = if c[0] >= 0x80 { 0xff } else { 0 };
            for _ in 0..s.range(1, 3) {
                c.insert(0, pad);
            }
            o = gen::tlv(0, false, T_INT, &c);
            "integer padding"
        }
        2 => {
            o.extend([2, 0]);
            "empty integer"
        }
        3 => {
            let mut c = gen::bit_content_der(s);
            if c.len() == 1 {
                c.push(0x80);
            }
            let u = s.range(1, 7) as u8;
            c[0] = u;
            let k = c.len() - 1;
            c[k] |= 1 << s.below(u as u64);
            o = gen::tlv(0, false, T_BITS, &c);
            "unused bits set"
        }
        4 => {
            let mut c = gen::bit_content_der(s);
            c[0] = 8 + s.below(248) as u8;
            o = gen::tlv(0, false, T_BITS, &c);
            "too many unused bits"
        }
        5 => {
            o.extend([3, 1, 1 + s.below(7) as u8]);
            "unused bits without content"
        }
        6 => {
            let t = *s.pick(&[
                T_OCTETS, T_BITS, T_UTF8, T_NUMERIC, T_PRINTABLE, T_T61, T_VIDEOTEX, T_IA5, T_GRAPHIC, T_VISIBLE, T_GENERAL, T_UNIVERSAL,
                T_BMP, T_OBJDESC,
            ]);
            let inner = gen::tlv(0, false, T_OCTETS, b"ab");
            o = gen::tlv(0, true, t, if s.chance(1, 3) { b"" } else { &inner });
            "constructed string"
        }
        7 => {
            let gen_t = s.chance(1, 2);
            let mut c = gen::time_content(s, gen_t, true, false);
            c.pop();
            let t = if gen_t { T_GENTIME } else { T_UTC };
            match s.below(3) {
                0 => c.extend(b"+0100"),
                1 => c.extend(b"-0000"),
                _ => {}
            }
            o = gen::tlv(0, false, t, &c);
            "time without Z"
        }
        8 => {
            let mut c = vec![];
            for _ in 0..s.usize(3) {
                gen::element(s, &gen::DER, 4, &mut 2, &mut c);
            }
            o.extend([*s.pick(&[0x30u8, 0x31]), 0x80]);
            o.extend(c);
            o.extend([0, 0]);
            "indefinite length"
        }
        9 => {
            o.extend([*s.pick(&[0xa0u8, 0x61, 0xe3]), 0x80]);
            o.extend([4, 1, 7]);
            o.extend([0, 0]);
            "indefinite length, other class"
        }
        10 => {
            // not listed as a DER fault: non-minimal length
            let c = gen::oid_content(s);
            o.push(6);
            let extra = s.usize(5);
            gen::put_len_padded(&mut o, c.len(), extra);
            o.extend(c);
            "control: long length form"
        }
        11 => {
            // content that looks like a fault but belongs to another type or class
            let c: &[u8] = *s.pick(&[&[0u8, 0][..], &[0xff, 0xff], &[1], &[0, 1], &[9, 9]]);
            let (class, t) = *s.pick(&[(0u8, T_OCTETS), (2, 1), (2, 2), (1, 3), (3, 23), (0, 9), (0, 8)]);
            o = gen::tlv(class, false, t, c);
            "control: look-alike"
        }
        12 => {
            let c = gen::int_octets(gen::int_value(s));
            o = gen::tlv(0, false, T_INT, &c);
            "control: minimal integer"
        }
        _ => {
            let c = gen::bit_content_der(s);
            o = gen::tlv(0, false, T_BITS, &c);
            "control: bit string"
        }
    };
    (name, o)
}

/// one DER fault at a chosen depth and position of an otherwise valid DER tree
fn c05_fault(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let (name, mut b) = der_fault(s);
    cov.label(name);
    for _ in 0..s.usize(7) {
        let mut c = vec![];
        let mut bud = 4;
        for _ in 0..s.usize(3) {
            gen::element(s, &gen::DER, 4, &mut bud, &mut c);
        }
        c.extend(&b);
        for _ in 0..s.usize(3) {
            gen::element(s, &gen::DER, 4, &mut bud, &mut c);
        }
        b = gen::tlv(0, true, if s.chance(1, 3) { T_SET } else { T_SEQ }, &c);
    }
    b.extend(gen::trailing(s));
    c05_check(&b, cov)
}
fn c05_random(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let der = !s.chance(1, 4);
    let b = gen::input(s, der);
    c05_check(&b, cov)
}
fn c05_short(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    c05_check(&gen::short(s.below(gen::SHORT3)), cov)
}
/// every boolean/integer/bit string with up to two content octets, bare and inside a sequence
fn c05_large(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    c05_check(&gen::large(s.u64()), cov)
}
fn c05_big(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    c05_check(&gen::big(s), cov)
}
fn c05_lead(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let idx = s.u64();
    c05_check(&gen::lead(idx, &mut Src::from_seed(idx)), cov)
}
fn c05_small(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let mut i = s.below(3 * gen::SHORT2 * 2);
    let tag = [1u32, 2, 3][(i % 3) as usize];
    i /= 3;
    let wrap = i % 2 == 1;
    i /= 2;
    let mut b = gen::tlv(0, false, tag, &gen::short(i));
    if wrap {
        b = gen::tlv(0, true, T_SEQ, &b);
    }
    c05_check(&b, cov)
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        rule: "all inputs of at most 2 octets, all booleans/integers/bit strings of up to 2 content octets bare and nested, valid DER trees with exactly one DER fault at a chosen depth (plus controls), random DER/BER inputs; verdict compared with the reference model and with the BER parser; non-trivial = accepted with more than 2 octets, or valid BER refused by DER",
        subs: vec![
            Sub { name: "short", size: Size::Exhaustive(gen::SHORT2, gen::SHORT3), run: c05_short },
            Sub { name: "small values", size: Size::Exhaustive(6 * gen::SHORT2, 6 * gen::SHORT2), run: c05_small },
            Sub { name: "large", size: Size::List(gen::large_huge_codes), run: c05_large },
            Sub { name: "big", size: Size::Random(6_000, 100_000), run: c05_big },
            Sub { name: "leading octets", size: Size::Exhaustive(gen::LEADS, gen::LEADS), run: c05_lead },
            Sub { name: "one fault", size: Size::Random(2_400_000, 30_000_000), run: c05_fault },
            Sub { name: "random", size: Size::Random(4_000_000, 40_000_000), run: c05_random },
        ],
        assumptions: &["reference decoder written from X.690 and the property statement"],
        debug_scale: 0.0,
    }
}

// ---------------------------------------------------------------- C06

/// A tree whose deepest branch has `depth` levels (a lone leaf or empty container has 1);
/// returns the encoding
pub fn nest(s: &mut Src, depth: usize, der: bool, indef_ok: bool, side: bool) -> Vec<u8> {
    // innermost element
    let mut b = match s.below(3) {
        0 => gen::tlv(0, true, *s.pick(&[T_SEQ, T_SET]), &[]),
        1 => gen::tlv(0, false, T_NULL, &[]),
        _ => gen::tlv(0, false, T_INT, &[5]),
    };
    let mode = s.below(3);
    for _ in 1..depth {
        let tag = *s.pick(&[T_SEQ, T_SET]);
        let mut c = vec![];
        if side && s.chance(1, 3) {
            c.extend(gen::tlv(0, false, T_INT, &[1]));
        }
        c.extend(&b);
        if side && s.chance(1, 3) {
            c.extend(gen::tlv(2, false, 1, &[1]));
        }
        let ind = indef_ok && !der && (mode == 2 || (mode == 1 && s.chance(1, 3)));
        if ind {
            let mut o = vec![0x20 | tag as u8, 0x80];
            o.extend(c);
            o.extend([0, 0]);
            b = o;
        } else {
            b = gen::tlv(0, true, tag, &c);
        }
    }
    b
}

fn c06_depth(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let der = s.chance(1, 2);
    let n = match s.below(3) {
        0 => 50,
        1 => s.usize(51),
        _ => s.usize(6),
    };
    let delta = *s.pick(&[0i64, 1, -1, 2, 5, -3, 40, 0, 1]);
    let depth = (n as i64 + delta).clamp(1, 120) as usize;
    let b = nest(s, depth, der, true, true);
    let mut input = b.clone();
    input.extend(gen::trailing(s));
    let want = if der { refm::der(&input, n) } else { refm::ber(&input, n) };
    // the model and the construction must tell the same story
    let ok = depth <= n;
    if want.is_ok() != ok {
        return Err(format!("harness: model disagrees with construction, depth {depth} limit {n}"));
    }
    let mut res: Vec<(&str, BerResult<'_>)> = vec![("recursive parser", recursive(&input, n, der))];
    if !der {
        res.push(("parse_ber_any_r", parse_ber_any_r(&input, n)));
        res.push(("parse_ber_any_with_tag_r", parse_ber_any_with_tag_r(&input, Tag((input[0] & 0x1f) as u32), n)));
    }
    if n == 50 {
        res.push(("generic parser", generic(&input, der)));
        res.push(("parser with tag", with_tag(&input, (input[0] & 0x1f) as u32, der)));
        if let Some(t) = typed((input[0] & 0x1f) as u32) {
            res.push((t.name, if der { (t.der)(&input) } else { (t.ber)(&input) }));
        }
    }
    for (what, r) in &res {
        match r {
            Ok((rem, o)) => {
                if !ok {
                    return Err(format!("{what} (der={der}) accepts {depth} levels with limit {n}: {}", hex(&input)));
                }
                check_rem(&input, rem, b.len())?;
                if let Ok(p) = &want {
                    if no_raw(&dump(o)) != no_raw(&model_dump(&input, &p.node)) {
                        return Err(format!("{what}: wrong value for {}", hex(&input)));
                    }
                }
            }
            Err(e) => {
                if ok {
                    return Err(format!("{what} (der={der}) refuses {depth} levels with limit {n} ({e:?}): {}", hex(&input)));
                }
                if ec(e) != EC::Depth {
                    return Err(format!("{what} (der={der}): {depth} levels with limit {n} refused with {e:?}: {}", hex(&input)));
                }
            }
        }
    }
    // content parsers take the limit as well
    if let Ok((rest, h)) = header(&input, der) {
        let r = content_as(rest, h.tag().0, &h, n, der);
        match &r {
            Ok(_) if !ok => return Err(format!("content parser accepts {depth} levels with limit {n}: {}", hex(&input))),
            Err(e) if ok => return Err(format!("content parser refuses {depth} levels with limit {n} ({e:?}): {}", hex(&input))),
            Err(e) if ec(e) != EC::Depth => {
                return Err(format!("content parser: {depth} levels with limit {n} refused with {e:?}: {}", hex(&input)))
            }
            _ => {}
        }
    }
    cov.label_if(ok, "within the limit");
    cov.label_if(!ok, "beyond the limit");
    cov.label_if(depth == n, "exactly at the limit");
    cov.label_if(depth == n + 1, "one too deep");
    cov.label_if(n == 0, "limit 0");
    if depth + 2 >= n && depth <= n + 2 {
        cov.nontrivial(&(&input, n, der), || format!("limit {n}, {depth} levels, der={der}: {}", hex(&input)));
    }
    Ok(())
}

/// random trees with random limits, judged by the model
fn c06_tree(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let der = s.chance(1, 2);
    let n = s.usize(8);
    let b = gen::input(s, der);
    let want = if der { refm::der(&b, n) } else { refm::ber(&b, n) };
    let got = recursive(&b, n, der);
    against("recursive parser", &b, &got, &want).map_err(|e| format!("limit {n}, der={der}, {}: {e}", hex(&b)))?;
    if n == 0 {
        if got.is_ok() {
            return Err(format!("limit 0 accepts {}", hex(&b)));
        }
    }
    if let Err(f) = &want {
        cov.label_if(f.depth, "depth");
        if f.depth && !f.incomplete && !f.reject {
            cov.nontrivial(&(&b, n, der), || format!("limit {n}, der={der}: {}", hex(&b)));
        }
    }
    Ok(())
}

/// announced lengths around the maximum object size
fn c06_size(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let der = s.chance(1, 2);
    let l: u64 = match s.below(3) {
        0 => MAX_SIZE + 1 + s.below(5),
        1 => *s.pick(&[MAX_SIZE, MAX_SIZE - 1, MAX_SIZE + 1, 1 << 33, 1 << 40, 1 << 63, u64::MAX, u64::MAX - 1, 0x8000_0000, 70_000, 1 << 24]),
        _ if s.chance(1, 4) => s.lit(u64::MAX),
        _ => s.u64() >> s.below(40),
    };
    let (class, cons, tag) = match s.below(4) {
        0 => (0, true, *s.pick(&[T_SEQ, T_SET])),
        1 => (0, false, *s.pick(&gen::LEAVES)),
        2 => (1 + s.below(3) as u8, s.chance(1, 2), gen::other_tag(s)),
        _ => (0, false, *s.pick(&gen::UNKNOWN_UNIVERSAL)),
    };
    let mut e = vec![];
    gen::put_tag(&mut e, class, cons, tag);
    let pad = if s.chance(1, 4) { s.usize(3) } else { 0 };
    gen::put_len_padded(&mut e, l as usize, pad);
    let hlen = e.len();
    let n = s.usize(6);
    e.extend(s.bytes(n));
    // optionally inside a complete container, or inside an indefinite one
    let wrap = s.below(4);
    let b = match wrap {
        0 => gen::tlv(0, true, T_SEQ, &e),
        1 if !der => {
            let mut o = vec![0x30, 0x80];
            o.extend(&e);
            o
        }
        _ => e.clone(),
    };
    let got = generic(&b, der);
    let any = parse_ber_any(&b);
    let want = if der { refm::der(&b, 50) } else { refm::ber(&b, 50) };
    against("generic parser", &b, &got, &want).map_err(|e| format!("der={der}, {}: {e}", hex(&b)))?;
    let big = l > MAX_SIZE;
    let top = b.len() == e.len();
    if top {
        let mut list: Vec<(String, EC)> = vec![];
        let mut add = |w: &str, r: Option<EC>| {
            if let Some(x) = r {
                list.push((w.to_string(), x))
            }
        };
        add("generic parser", got.as_ref().err().map(ec));
        add("recursive parser", recursive(&b, 2, der).as_ref().err().map(ec));
        add("parse_ber_any", any.as_ref().err().map(ec));
        add("parser with tag", with_tag(&b, tag, der).as_ref().err().map(ec));
        if let Some(t) = typed(tag) {
            let r = if der { (t.der)(&b) } else { (t.ber)(&b) };
            add(t.name, r.as_ref().err().map(ec));
        }
        let hd = Header::new(class_of(class), cons, Tag(tag), Length::Definite(l as usize));
        add("content parser", content_as(&b[hlen..], tag, &hd, 50, der).as_ref().err().map(ec));
        for (what, e) in &list {
            if big && *e != EC::InvalidLength {
                return Err(format!("{what} (der={der}) answers {e:?} to an announced length of {l}: {}", hex(&b)));
            }
            if !big && l as usize > b.len() && *e != EC::Incomplete {
                return Err(format!("{what} (der={der}) answers {e:?} to an announced length of {l}, which is admissible: {}", hex(&b)));
            }
        }
        if big && (got.is_ok() || any.is_ok()) {
            return Err(format!("announced length {l} accepted"));
        }
    }
    cov.label_if(big, "above the maximum");
    cov.label_if(!big, "not above the maximum");
    if l >= MAX_SIZE - 1 {
        cov.nontrivial(&(&b, der), || format!("length {l}, der={der}: {}", hex(&b)));
    }
    Ok(())
}

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        rule: "chains and bushes of sequences/sets whose nesting is at, around and far beyond the limit, for limits 0..=50, definite/indefinite/mixed, BER and DER; random trees with small limits judged by the model; announced lengths around 2^32-1 at top level and inside containers; non-trivial = nesting within 2 of the limit, refusal due to depth alone, or length at or above the maximum",
        subs: vec![
            Sub { name: "depth", size: Size::Random(1_200_000, 10_000_000), run: c06_depth },
            Sub { name: "tree", size: Size::Random(2_000_000, 20_000_000), run: c06_tree },
            Sub { name: "size", size: Size::Random(1_200_000, 10_000_000), run: c06_size },
        ],
        assumptions: &["64-bit target"],
        debug_scale: 0.0,
    }
}
