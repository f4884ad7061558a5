//! C14, C19
use crate::cmp::*;
use crate::driver::Prop;
use crate::engine::*;
use crate::gen::{self, hex};
use crate::parsers::*;
use crate::refm::{self, *};
use der_parser::asn1_rs::FromDer;
use der_parser::asn1_rs::{Any, Tag};
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::{BerError, BerResult};
use der_parser::nom;
use std::convert::TryFrom;

/// forget the header kept inside unknown contents (it may be rebuilt by content parsers)
fn plain(d: &D) -> D {
    let mut d = no_raw(d);
    if let DC::Unknown(h, _) = &mut d.c {
        *h = DH { class: 0, cons: false, tag: 0, len: Len::Indef, raw: None };
    }
    d
}

fn plain_c(c: &DC) -> DC {
    let h = DH { class: 0, cons: false, tag: 0, len: Len::Indef, raw: None };
    plain(&D { h, c: c.clone() }).c
}

fn unexpected(e: &NomErr) -> bool {
    matches!(e, nom::Err::Error(BerError::UnexpectedTag { .. }) | nom::Err::Failure(BerError::UnexpectedTag { .. }))
}

fn show<T>(r: &BerResult<T>) -> String {
    match r {
        Ok((rem, _)) => format!("accepted, {} bytes left", rem.len()),
        Err(e) => format!("{e:?}"),
    }
}

fn same(what: &str, b: &[u8], got: &BerResult, want: &BerResult) -> Result<(), String> {
    match (got, want) {
        (Ok((r1, o1)), Ok((r2, o2))) => {
            if r1.len() != r2.len() || (!r1.is_empty() && r1.as_ptr() != r2.as_ptr()) {
                return Err(format!("{what} on {}: {} bytes left, {} from the generic parser", hex(b), r1.len(), r2.len()));
            }
            let (d1, d2) = (plain(&dump(o1)), plain(&dump(o2)));
            if d1 != d2 {
                return Err(format!("{what} on {}: {}", hex(b), diff(&d1, &d2)));
            }
            Ok(())
        }
        (Err(_), Err(_)) => Ok(()),
        _ => Err(format!("{what} on {}: {}, but the generic parser: {}", hex(b), show(got), show(want))),
    }
}

/// a per-type parser (or one that takes the tag) against the model and the generic parser
fn tag_checked(what: &str, b: &[u8], tag: u32, der: bool, got: &BerResult, gener: &BerResult) -> Result<(), String> {
    let h = read_hdr(b, 0);
    if let Ok(h) = &h {
        if h.tag != tag {
            return match got {
                Ok(_) => Err(format!("{what} accepts {}, whose tag number is {}", hex(b), h.tag)),
                Err(e) => {
                    let sound = frame(b, h).is_ok() && (!der || h.len != Len::Indef) && h.minimal_tag;
                    if sound && !unexpected(e) {
                        return Err(format!("{what} on {} (tag number {}): {e:?} instead of an unexpected-tag error", hex(b), h.tag));
                    }
                    Ok(())
                }
            };
        }
        if h.class == 0 {
            same(what, b, got, gener)?;
        }
    } else if got.is_ok() {
        return Err(format!("{what} accepts {}, which has no valid header", hex(b)));
    }
    let want = refm::as_type(b, tag, der);
    match (got, &want) {
        (Ok((rem, o)), Ok(p)) => {
            check_rem(b, rem, p.node.end).map_err(|e| format!("{what} on {}: {e}", hex(b)))?;
            let w = D { h: model_dh(b, &p.node), c: model_content(b, &p.node, tag) };
            let (g, w) = (plain(&dump(o)), plain(&w));
            if g != w {
                return Err(format!("{what} on {}: {}", hex(b), diff(&g, &w)));
            }
            Ok(())
        }
        _ => against(&format!("{what} on {}", hex(b)), b, got, &want),
    }
}

fn c14_check(b: &[u8], asked: u32, other: u32, cov: &mut Cov) -> Result<(), String> {
    let h = read_hdr(b, 0).ok();
    let own = h.as_ref().map(|h| h.tag).unwrap_or(asked);
    let mut hit = false;
    for der in [false, true] {
        let fam = if der { "der" } else { "ber" };
        let gener = generic(b, der);
        for tag in [own, asked, other] {
            for t in TYPED.iter().filter(|t| t.tag == tag) {
                let f = if der { t.der } else { t.ber };
                let name = if der { t.name.replace("_ber_", "_der_") } else { t.name.to_string() };
                tag_checked(&name, b, tag, der, &f(b), &gener)?;
            }
            tag_checked(&format!("parse_{fam}_with_tag({tag})"), b, tag, der, &with_tag(b, tag, der), &gener)?;
            if !der {
                // the tag-checked recursive parser keeps non-universal elements as unknown
                let r = parse_ber_any_with_tag_r(b, Tag(tag), MAX_RECURSION);
                match &h {
                    Some(h) if h.tag != tag => match &r {
                        Ok(_) => return Err(format!("parse_ber_any_with_tag_r({tag}) accepts {}", hex(b))),
                        Err(e) => {
                            if frame(b, h).is_ok() && h.minimal_tag && !unexpected(e) {
                                return Err(format!("parse_ber_any_with_tag_r({tag}) on {}: {e:?}, not an unexpected-tag error", hex(b)));
                            }
                        }
                    },
                    _ => same(&format!("parse_ber_any_with_tag_r({tag})"), b, &r, &gener)?,
                }
                same("parse_ber_any_r", b, &parse_ber_any_r(b, MAX_RECURSION), &gener)?;
            }
            // the raw content slice for a tag
            let r = slice_of(b, tag, der);
            let want = match &h {
                Some(h) if h.tag == tag && !(der && h.len == Len::Indef) => frame(b, h).ok().map(|(c1, e)| (h.body, c1, e)),
                _ => None,
            };
            match (&r, want) {
                (Ok((rem, s)), Some((c0, c1, e))) => {
                    check_rem(b, rem, e).map_err(|m| format!("parse_{fam}_slice({tag}) on {}: {m}", hex(b)))?;
                    if *s != &b[c0..c1] || (!s.is_empty() && s.as_ptr() != b[c0..].as_ptr()) {
                        return Err(format!("parse_{fam}_slice({tag}) on {}: got content {}", hex(b), hex(s)));
                    }
                }
                (Err(e), None) => {
                    if let Some(h) = &h {
                        if h.tag != tag && frame(b, h).is_ok() && !(der && h.len == Len::Indef) && h.minimal_tag && !unexpected(e) {
                            return Err(format!("parse_{fam}_slice({tag}) on {}: {e:?}, not an unexpected-tag error", hex(b)));
                        }
                    }
                }
                (Ok(_), None) => return Err(format!("parse_{fam}_slice({tag}) accepts {}", hex(b))),
                (Err(e), Some(_)) => {
                    if h.as_ref().map_or(true, |h| h.minimal_tag) {
                        return Err(format!("parse_{fam}_slice({tag}) refuses {}: {e:?}", hex(b)));
                    }
                }
            }
        }
        // header, then content
        let rh = header(b, der);
        match (&rh, &h) {
            (Ok((rest, hd)), Some(m)) => {
                let want = DH { class: m.class, cons: m.cons, tag: m.tag, len: m.len, raw: None };
                let got = DH { raw: None, ..dh(hd) };
                if got != want {
                    return Err(format!("{fam} header of {}: {}", hex(b), diff(&got, &want)));
                }
                check_rem(b, rest, m.body).map_err(|e| format!("{fam} header of {}: {e}", hex(b)))?;
                if let Some(r) = hd.raw_tag() {
                    if r != &b[..m.tag_end] {
                        return Err(format!("{fam} header of {}: identifier octets {}", hex(b), hex(r)));
                    }
                }
                // content read as a type: like the generic parser for universal elements, like the
                // model for any class
                for tag in [own, asked] {
                    let rs: [(&str, BerResult<BerObjectContent>); 3] = if der {
                        [
                            ("der_read_element_content_as", content_as(rest, tag, hd, MAX_RECURSION, true)),
                            ("parse_der_content", parse_der_content(Tag(tag))(rest, hd, MAX_RECURSION)),
                            ("parse_der_content2", parse_der_content2(Tag(tag))(rest, hd.clone(), MAX_RECURSION)),
                        ]
                    } else {
                        [
                            ("ber_read_element_content_as", content_as(rest, tag, hd, MAX_RECURSION, false)),
                            ("parse_ber_content", parse_ber_content(Tag(tag))(rest, hd, MAX_RECURSION)),
                            ("parse_ber_content2", parse_ber_content2(Tag(tag))(rest, hd.clone(), MAX_RECURSION)),
                        ]
                    };
                    let want = refm::as_type(b, tag, der);
                    for (what, r) in &rs {
                        match (r, &want) {
                            (Ok((rem, c)), Ok(p)) => {
                                check_rem(b, rem, p.node.end).map_err(|e| format!("{what}({tag}) on {}: {e}", hex(b)))?;
                                let (g, w) = (plain_c(&dc(c)), plain_c(&model_content(b, &p.node, tag)));
                                if g != w {
                                    return Err(format!("{what}({tag}) on {}: {}", hex(b), diff(&g, &w)));
                                }
                                hit = true;
                            }
                            (Ok(_), Err(f)) => return Err(format!("{what}({tag}) accepts the content of {} ({f:?})", hex(b))),
                            (Err(e), Ok(p)) => {
                                if !p.lenient {
                                    return Err(format!("{what}({tag}) refuses the content of {}: {e:?}", hex(b)));
                                }
                            }
                            (Err(e), Err(f)) => {
                                if !fault_allows(f, ec(e)) {
                                    return Err(format!("{what}({tag}) on {}: {e:?}, expected {f:?}", hex(b)));
                                }
                            }
                        }
                        if tag == own && m.class == 0 && r.is_ok() != gener.is_ok() {
                            return Err(format!("{what} on {}: {}, generic parser: {}", hex(b), show(r), show(&gener)));
                        }
                    }
                }
                if der {
                    same("header + der_read_element_content", b, &der_read_element_content(rest, hd.clone()), &gener)?;
                }
            }
            (Err(_), _) => {
                if gener.is_ok() {
                    return Err(format!("the {fam} header parser refuses {}, the generic parser accepts it", hex(b)));
                }
            }
            (Ok(_), None) => return Err(format!("the {fam} header parser accepts {}", hex(b))),
        }
        hit |= gener.is_ok();
    }
    // non-recursive any-parser
    any_check(b, &h, cov)?;
    if let Some(h) = &h {
        cov.label_if(h.class != 0 && typed(own).is_some(), "non-universal class with a type's tag number");
        cov.label_if(h.len == Len::Indef, "indefinite length");
        cov.label_if(own != asked, "another type's tag asked");
        cov.label_if(h.class == 0 && h.cons, "container");
        if hit && b.len() > 2 {
            cov.nontrivial(b, || format!("{} as {}", hex(b), asked));
        }
    }
    Ok(())
}

fn any_check(b: &[u8], h: &Option<Hdr>, cov: &mut Cov) -> Result<(), String> {
    let want = h.as_ref().and_then(|h| frame(b, h).ok().map(|(c1, e)| (h.body, c1, e)));
    match (parse_ber_any(b), want) {
        (Ok((rem, any)), Some((c0, c1, e))) => {
            check_rem(b, rem, e).map_err(|m| format!("parse_ber_any on {}: {m}", hex(b)))?;
            let m = h.as_ref().expect("header");
            let want = DH { class: m.class, cons: m.cons, tag: m.tag, len: m.len, raw: None };
            let got = DH { raw: None, ..dh(&any.header) };
            if got != want {
                return Err(format!("parse_ber_any header of {}: {}", hex(b), diff(&got, &want)));
            }
            if any.data != &b[c0..c1] {
                return Err(format!("parse_ber_any content of {}: {}", hex(b), hex(any.data)));
            }
            cov.label("any accepted");
        }
        (Err(_), None) => {}
        (Ok(_), None) => return Err(format!("parse_ber_any accepts {}", hex(b))),
        (Err(e), Some(_)) => {
            if h.as_ref().map_or(true, |h| h.minimal_tag) {
                return Err(format!("parse_ber_any refuses {}: {e:?}", hex(b)));
            }
        }
    }
    Ok(())
}

/// an element carrying a type's tag number in any class, with content of that or another type
fn retagged(s: &mut Src) -> (Vec<u8>, u32) {
    let tag = *s.pick(&gen::LEAVES);
    let der = s.chance(1, 2);
    let cfg = if der { gen::DER } else { gen::BER };
    let bad = s.chance(1, 6);
    let (cons, framed, c, asked) = if s.chance(1, 4) {
        let mut c = vec![];
        for _ in 0..s.usize(4) {
            gen::element(s, &cfg, 3, &mut 6, &mut c);
        }
        (true, true, c, if s.chance(1, 3) { T_SET } else { T_SEQ })
    } else {
        (false, false, gen::leaf_content(s, tag, &cfg, bad), tag)
    };
    let class = s.below(4) as u8;
    let own = match s.weighted(&[4, 1, 1]) {
        0 => asked,
        1 => TYPED[s.usize(TYPED.len())].tag,
        _ => gen::other_tag(s),
    };
    let mut out = vec![];
    let cfg2 = gen::Cfg { fault: if s.chance(1, 4) { 300 } else { 0 }, ..cfg };
    gen::emit(s, &cfg2, &mut out, class, cons, own, &c, framed);
    (out, asked)
}

fn c14_random(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let der = s.chance(1, 2);
    let (mut b, asked) = if s.chance(1, 2) {
        retagged(s)
    } else {
        (gen::input(s, der), TYPED[s.usize(TYPED.len())].tag)
    };
    let other = gen::other_tag(s);
    let t = gen::trailing(s);
    b.extend(t);
    c14_check(&b, asked, other, cov)
}

fn c14_large(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let b = gen::large(s.u64());
    c14_check(&b, T_OCTETS, T_SET, cov)
}

fn c14_big(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let b = gen::big(s);
    c14_check(&b, *s.pick(&[T_OCTETS, T_SEQ]), T_SET, cov)
}
fn c14_lead(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let idx = s.u64();
    let s = &mut Src::from_seed(idx);
    let b = gen::lead(idx, s);
    c14_check(&b, *s.pick(&[T_OCTETS, T_INT, T_UTF8]), T_SEQ, cov)
}

fn c14_short(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let b = gen::short(s.u64());
    c14_check(&b, T_OCTETS, T_SEQ, cov)
}

fn exhaustive4(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    // every identifier octet x content length 0..=3 x interesting contents
    let idx = s.u64();
    let b0 = (idx & 0xff) as u8;
    let k = (idx >> 8) as usize;
    let cs: [&[u8]; 24] = [
        &[], &[0], &[0xff], &[5], &[0x80], &[0, 0], &[0, 0x80], &[0xff, 0xff], &[0xff, 0x7f], &[3, 8], &[3, 7], &[8, 0], b"A1", b"12", &[5, 0], &[1, 1, 0],
        &[1, 1, 7], &[0x0d, 0x0a, 0x41], &[0, 0x41, 0], b"991231235959Z", b"20201231235959Z", &[0xd8, 0, 0xdc, 0], &[0, 0, 0], &[0xc3, 0xa9],
    ];
    let c = cs[k % cs.len()];
    let form = k / cs.len();
    let mut b = vec![b0];
    if b0 & 0x1f == 0x1f {
        b.push(33);
    }
    match form {
        0 => b.push(c.len() as u8),
        1 => {
            b.push(0x81);
            b.push(c.len() as u8)
        }
        _ => b.push(0x80),
    }
    b.extend_from_slice(c);
    if form == 2 {
        b.extend_from_slice(&[0, 0]);
    }
    c14_check(&b, (b0 & 0x1f) as u32, ((b0 as u32) + 1) & 0x1f, cov)
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        rule: "random: generated/faulty/mutated BER and DER elements with trailing bytes, and elements carrying a type's tag number in any class; every 0..2-octet (thorough 3) input; every identifier octet x 24 contents x 3 length forms. Each is given to the parser of its own tag, of an asked type and of another tag. Non-trivial: some parser accepts it.",
        subs: vec![
            Sub { name: "random", size: Size::Random(600_000, 6_000_000), run: c14_random },
            Sub { name: "short", size: Size::Exhaustive(gen::SHORT2, gen::SHORT3), run: c14_short },
            Sub { name: "large", size: Size::List(gen::large_mixed_codes), run: c14_large },
            Sub { name: "big", size: Size::Random(1_500, 30_000), run: c14_big },
            Sub { name: "leading octets", size: Size::Exhaustive(gen::LEADS / 4, gen::LEADS), run: c14_lead },
            Sub { name: "identifiers", size: Size::Exhaustive(256 * 72, 256 * 72), run: exhaustive4 },
        ],
        assumptions: &["refm.rs as the reading of X.690", "tolerated encodings may be accepted or refused, but identically by the per-type and generic parsers"],
        debug_scale: 0.0,
    }
}

// ---------------------------------------------------------------- C19

fn c19_check(b: &[u8], cov: &mut Cov) -> Result<(), String> {
    let h = read_hdr(b, 0).ok();
    any_check(b, &h, cov)?;
    let direct = parse_ber(b);
    match parse_ber_any(b) {
        Err(_) => {
            if direct.is_ok() {
                return Err(format!("parse_ber accepts {} but parse_ber_any does not", hex(b)));
            }
        }
        Ok((rem, any)) => {
            let copy = any.clone();
            let by_ref: Result<BerObject, BerError> = BerObject::try_from(&any);
            let raw_before = (dh(&copy.header), copy.data.to_vec());
            if (dh(&any.header), any.data.to_vec()) != raw_before {
                return Err(format!("conversion by reference alters the element {}", hex(b)));
            }
            let by_val: Result<BerObject, BerError> = BerObject::try_from(any);
            for (what, got) in [("by reference", &by_ref), ("by value", &by_val)] {
                match (got, &direct) {
                    (Ok(o), Ok((r, d))) => {
                        if r.len() != rem.len() {
                            return Err(format!("{}: parse_ber leaves {} bytes, parse_ber_any {}", hex(b), r.len(), rem.len()));
                        }
                        // the header was read by the same library: it must be the same in every detail
                        let (x, y) = (dump(o), dump(d));
                        if x != y {
                            return Err(format!("conversion {what} of {}: {}", hex(b), diff(&x, &y)));
                        }
                    }
                    (Err(e), Err(d)) => {
                        // same outcome: also the same class of refusal
                        let dc = ec(d);
                        let gc = ec(&nom::Err::Error(e.clone()));
                        if (dc == EC::Depth) != (gc == EC::Depth) {
                            return Err(format!("conversion {what} of {}: {e:?}, direct parsing: {d:?}", hex(b)));
                        }
                    }
                    (g, d) => {
                        return Err(format!(
                            "conversion {what} of {}: {}, direct parsing: {}",
                            hex(b),
                            match g {
                                Ok(o) => format!("{:?}", o.content),
                                Err(e) => format!("{e:?}"),
                            },
                            show(d)
                        ))
                    }
                }
            }
            // the same element read by the underlying library
            if copy.header.length() != Length::Indefinite {
                if let Ok((_, other)) = <Any as FromDer>::from_der(b) {
                    let got: Result<BerObject, BerError> = BerObject::try_from(other);
                    match (&got, &direct) {
                        (Ok(o), Ok((_, d))) if no_raw(&dump(o)) == no_raw(&dump(d)) => {}
                        (Err(_), Err(_)) => {}
                        _ => return Err(format!("conversion of the element read by Any::from_der from {} differs from direct parsing", hex(b))),
                    }
                    cov.label("Any::from_der");
                }
            }
            cov.label_if(direct.is_err(), "refused by both");
            if let Some(h) = &h {
                cov.label_if(h.class != 0, "non-universal");
                cov.label_if(h.len == Len::Indef, "indefinite");
                cov.label_if(h.tag >= 31, "high tag number");
                cov.label_if(h.class == 0 && h.cons, "container");
            }
            if b.len() > 3 {
                cov.nontrivial(b, || hex(b));
            }
        }
    }
    Ok(())
}

fn c19_random(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let b = if s.chance(1, 3) {
        let (mut b, _) = retagged(s);
        let t = gen::trailing(s);
        b.extend(t);
        b
    } else {
        let der = s.chance(1, 4);
        gen::input(s, der)
    };
    c19_check(&b, cov)
}

fn c19_large(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    c19_check(&gen::large(s.u64()), cov)
}

fn c19_big(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    c19_check(&gen::big(s), cov)
}
fn c19_lead(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let idx = s.u64();
    c19_check(&gen::lead(idx, &mut Src::from_seed(idx)), cov)
}

fn c19_short(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let b = gen::short(s.u64());
    c19_check(&b, cov)
}

/// nesting around the recursion limit, in both length forms
fn c19_nested(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let depth = s.range(1, 55);
    let mut b = vec![5u8, 0];
    for k in 0..depth {
        let t = if s.chance(1, 3) { 0x31 } else { 0x30 };
        let indef = s.chance(1, 3);
        let mut o = vec![t];
        if indef {
            o.push(0x80);
            o.extend(&b);
            o.extend([0, 0]);
        } else {
            gen::put_len(&mut o, b.len());
            o.extend(&b);
        }
        if k > 0 && s.chance(1, 20) {
            o.extend([5, 0]);
            let c = o;
            o = gen::tlv(0, true, T_SEQ, &c);
        }
        b = o;
    }
    cov.label("nested");
    c19_check(&b, cov)
}

/// a raw element built by hand from header and content converts like its encoding parses
fn c19_built(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let tag = *s.pick(&gen::LEAVES);
    let bad = s.chance(1, 5);
    let (cons, tag, c) = if s.chance(1, 4) {
        let mut c = vec![];
        for _ in 0..s.usize(4) {
            gen::element(s, &gen::BER, 3, &mut 6, &mut c);
        }
        (true, if s.chance(1, 2) { T_SET } else { T_SEQ }, c)
    } else {
        (s.chance(1, 12), tag, gen::leaf_content(s, tag, &gen::BER, bad))
    };
    let class = if s.chance(1, 3) { 1 + s.below(3) as u8 } else { 0 };
    let b = gen::tlv(class, cons, tag, &c);
    let any = Any::new(Header::new(class_of(class), cons, Tag(tag), Length::Definite(c.len())), &c);
    let got: Result<BerObject, BerError> = BerObject::try_from(&any);
    match (&got, &parse_ber(&b)) {
        (Ok(o), Ok((_, d))) => {
            let (x, y) = (no_raw(&dump(o)), no_raw(&dump(d)));
            if x != y {
                return Err(format!("conversion of the built element {}: {}", hex(&b), diff(&x, &y)));
            }
            cov.nontrivial(&b, || format!("built {}", hex(&b)));
        }
        (Err(_), Err(_)) => {}
        (g, d) => return Err(format!("conversion of the built element {}: {}, direct parsing {}", hex(&b), g.is_ok(), show(d))),
    }
    Ok(())
}

pub fn c19() -> Prop {
    Prop {
        id: "C19",
        rule: "random: generated/faulty/mutated BER elements of every class, tag and length form with trailing bytes; every 0..2-octet (thorough 3) input; nesting 1..55; elements built with Any::new. Non-trivial: parse_ber_any accepts it and it is longer than 3 octets.",
        subs: vec![
            Sub { name: "random", size: Size::Random(2_400_000, 20_000_000), run: c19_random },
            Sub { name: "short", size: Size::Exhaustive(gen::SHORT2, gen::SHORT3), run: c19_short },
            Sub { name: "large", size: Size::List(gen::large_huge_codes), run: c19_large },
            Sub { name: "big", size: Size::Random(4_000, 60_000), run: c19_big },
            Sub { name: "leading octets", size: Size::Exhaustive(gen::LEADS, gen::LEADS), run: c19_lead },
            Sub { name: "nested", size: Size::Random(24_000, 200_000), run: c19_nested },
            Sub { name: "built", size: Size::Random(1_200_000, 5_000_000), run: c19_built },
        ],
        assumptions: &["raw elements come from parse_ber_any (content without end-of-contents octets) or Any::new with a matching definite length"],
        debug_scale: 0.0,
    }
}
