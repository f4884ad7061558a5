//! C11: encoding and parsing are inverse
use crate::cmp::*;
use crate::driver::Prop;
use crate::engine::*;
use crate::gen::{self, hex};
use crate::parsers::*;
use crate::refm::{self, *};
use crate::tree::{self, N, T};
use der_parser::asn1_rs::{Class, Tag};
use der_parser::ber::*;
use der_parser::der::*;

/// canonical content octets; false when the bytes are not fixed by the property (time shapes)
fn canon_content(b: &[u8], n: &Node, out: &mut Vec<u8>) -> bool {
    match &n.val {
        Val::Eoc | Val::Null => true,
        Val::Bool(x) => {
            out.push(if *x { 0xff } else { 0 });
            true
        }
        Val::Enum(v) => {
            out.extend(unsigned(*v));
            true
        }
        Val::Seq(v) | Val::Set(v) => {
            let mut ok = true;
            for m in v {
                ok &= canon(b, m, out);
            }
            ok
        }
        Val::Utc(_) | Val::Gen(_) => {
            let c = n.content(b);
            out.extend_from_slice(c);
            canonical_time(c, matches!(n.val, Val::Gen(_)))
        }
        _ => {
            out.extend_from_slice(n.content(b));
            true
        }
    }
}

fn canonical_time(c: &[u8], gen: bool) -> bool {
    let base = if gen { 14 } else { 12 };
    if c.len() < base + 1 || c[c.len() - 1] != b'Z' || !c[..base].iter().all(u8::is_ascii_digit) {
        return false;
    }
    match &c[base..c.len() - 1] {
        [] => true,
        [b'.', d @ ..] => gen && !d.is_empty() && d[d.len() - 1] != b'0',
        _ => false,
    }
}

fn unsigned(v: u64) -> Vec<u8> {
    let b: Vec<u8> = v.to_be_bytes().iter().copied().skip_while(|&x| x == 0).collect();
    if b.is_empty() {
        vec![0]
    } else {
        b
    }
}

fn canon(b: &[u8], n: &Node, out: &mut Vec<u8>) -> bool {
    let mut c = vec![];
    let ok = canon_content(b, n, &mut c);
    out.extend(gen::tlv(n.h.class, n.h.cons, n.h.tag, &c));
    ok
}

fn encode(o: &BerObject) -> Result<Vec<u8>, String> {
    let v = o.to_vec().map_err(|e| format!("encoding fails: {e:?}"))?;
    let w: Vec<u8> =
        cookie_factory::gen_simple(ber_encode_object(o), Vec::new()).map_err(|e| format!("ber_encode_object fails: {e:?}"))?;
    if v != w {
        return Err(format!("to_vec gives {}, ber_encode_object {}", hex(&v), hex(&w)));
    }
    Ok(v)
}

/// encode, check the form, parse back, compare, encode again
fn round(what: &str, o: &BerObject, want: Option<&[u8]>, back: &dyn Fn(&[u8]) -> Result<(usize, D, Vec<u8>), String>) -> Result<Vec<u8>, String> {
    let v = encode(o).map_err(|e| format!("{what}: {e}"))?;
    if let Some(w) = want {
        if v != w {
            return Err(format!("{what}: encoded as {}, expected {}", hex(&v), hex(w)));
        }
    }
    minimal_form(&v, 0, v.len()).map_err(|e| format!("{what}: encoded as {}: {e}", hex(&v)))?;
    let (rest, d, again) = back(&v).map_err(|e| format!("{what}: encoded as {}, which does not parse back: {e}", hex(&v)))?;
    if rest != 0 {
        return Err(format!("{what}: encoded as {}, of which {rest} octets are left over", hex(&v)));
    }
    let (x, y) = (values(&d), values(&dump(o)));
    if x != y {
        return Err(format!("{what}: encoded as {}, which parses to another value: {}", hex(&v), diff(&x, &y)));
    }
    if again != v {
        return Err(format!("{what}: encoded as {}, then as {}", hex(&v), hex(&again)));
    }
    Ok(v)
}

/// every header of the encoding is definite and minimal (descends into universal containers)
fn minimal_form(b: &[u8], mut at: usize, end: usize) -> Result<(), String> {
    while at < end {
        let h = read_hdr(&b[..end], at).map_err(|_| format!("no header at offset {at}"))?;
        let Len::Def(l) = h.len else { return Err(format!("indefinite length at offset {at}")) };
        if !h.minimal_tag || !h.minimal_len {
            return Err(format!("header at offset {at} is not minimal"));
        }
        if h.body + l > end {
            return Err(format!("element at offset {at} exceeds its container"));
        }
        if h.class == 0 && (h.tag == T_SEQ || h.tag == T_SET) {
            minimal_form(b, h.body, h.body + l)?;
        }
        at = h.body + l;
    }
    Ok(())
}

fn back_generic(der: bool) -> impl Fn(&[u8]) -> Result<(usize, D, Vec<u8>), String> {
    move |v: &[u8]| {
        let (rem, o) = generic(v, der).map_err(|e| format!("{e:?}"))?;
        Ok((rem.len(), dump(&o), encode(&o)?))
    }
}

fn c11_parsed(b: &[u8], cov: &mut Cov) -> Result<(), String> {
    for der in [false, true] {
        let Ok((_, o)) = generic(b, der) else { continue };
        let Ok(p) = refm::ber(b, SKIP_DEPTH) else { continue };
        let mut w = vec![];
        let exact = canon(b, &p.node, &mut w);
        let fam = if der { "DER" } else { "BER" };
        let v = round(&format!("{fam} object {}", hex(b)), &o, exact.then_some(&w[..]), &back_generic(false))?;
        if der && v == b[..p.node.end] {
            cov.label("DER input reproduced byte for byte");
        }
        // header and content separately
        if let BerObjectContent::Sequence(_) | BerObjectContent::Set(_) = o.content {
            cov.label("container");
        }
        cov.label_if(p.node.any_indef(), "indefinite length re-encoded");
        cov.label_if(!exact, "time not in canonical shape");
        cov.label_if(p.node.h.tag >= 31, "high tag number");
        cov.label_if(v.len() > 130, "long form length");
        let raw: Vec<u8> = cookie_factory::gen_simple(
            ber_encode_object_raw(&lib_def_header(&p.node, v.len(), &v), &o.content),
            Vec::new(),
        )
        .map_err(|e| format!("ber_encode_object_raw fails on {}: {e:?}", hex(b)))?;
        if raw != v {
            return Err(format!("{}: ber_encode_object_raw gives {}, to_vec {}", hex(b), hex(&raw), hex(&v)));
        }
        if b.len() > 3 {
            cov.nontrivial(&v, || format!("{} -> {}", hex(b), hex(&v)));
        }
    }
    Ok(())
}

/// the minimal header that belongs to the encoding v of node n
fn lib_def_header(n: &Node, total: usize, v: &[u8]) -> Header<'static> {
    let l = match read_hdr(v, 0) {
        Ok(h) => total - h.body,
        Err(_) => 0,
    };
    Header::new(class_of(n.h.class), n.h.cons, Tag(n.h.tag), Length::Definite(l))
}

fn c11_random(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let b = if s.chance(1, 3) { gen::one(s, &gen::DER) } else { gen::input(s, false) };
    c11_parsed(&b, cov)
}

fn c11_big(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    c11_parsed(&gen::big(s), cov)
}
fn c11_large(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    c11_parsed(&gen::large(s.u64()), cov)
}

fn c11_short(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let b = gen::short(s.u64());
    c11_parsed(&b, cov)
}

/// canonical content octets of a built node
fn built_content(t: &T, out: &mut Vec<u8>) -> bool {
    match t {
        T::Eoc | T::Null => true,
        T::Bool(b) => {
            out.push(if *b { 0xff } else { 0 });
            true
        }
        T::Int(v) | T::Octets(v) | T::Oid(v) | T::RelOid(v) | T::Bmp(v) | T::Univ(v) => {
            out.extend(v);
            true
        }
        T::Text(_, x) => {
            out.extend(x.as_bytes());
            true
        }
        T::Bits(u, v) => {
            out.push(*u);
            out.extend(v);
            true
        }
        T::Enum(v) => {
            out.extend(unsigned(*v));
            true
        }
        T::Seq(v) | T::Set(v) => {
            let mut ok = true;
            for m in v {
                ok &= built(m, out);
            }
            ok
        }
        T::Utc(x) | T::Gen(x) => {
            let gen = matches!(t, T::Gen(_));
            let mut z = if gen { format!("{:04}", x.year) } else { format!("{:02}", x.year) };
            z += &format!("{:02}{:02}{:02}{:02}{:02}", x.month, x.day, x.hour, x.minute, x.second);
            if let Some(ms) = x.ms {
                z += &format!(".{ms:03}");
            }
            match x.tz {
                Tz::Z => z += "Z",
                Tz::None => {}
                Tz::Off(h, m) => z += &format!("{}{:02}{:02}", if h < 0 || m < 0 { '-' } else { '+' }, h.unsigned_abs(), m.unsigned_abs()),
            }
            out.extend(z.as_bytes());
            canonical_time(z.as_bytes(), gen)
        }
        _ => false,
    }
}

fn built(n: &N, out: &mut Vec<u8>) -> bool {
    let mut c = vec![];
    let ok = built_content(&n.t, &mut c);
    let cons = matches!(n.t, T::Seq(_) | T::Set(_));
    out.extend(gen::tlv(0, cons, n.t.tag(), &c));
    ok
}

fn c11_built(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let n = tree::node(s, 4, 0, false);
    let o = tree::build(&n);
    let d = tree::dump_n(&n);
    if values(&dump(&o)) != values(&d) {
        return Err(format!("constructed object: {}", diff(&values(&dump(&o)), &values(&d))));
    }
    let mut w = vec![];
    let exact = built(&n, &mut w);
    let v = round(&format!("object built from {n:?}"), &o, exact.then_some(&w[..]), &back_generic(false))?;
    // and the typed parser of the family reads it as well
    if let Some(t) = typed(n.t.tag()) {
        match (t.ber)(&v) {
            Ok((rem, o2)) if rem.is_empty() && values(&dump(&o2)) == values(&d) => {}
            r => return Err(format!("object built from {n:?} encodes as {}, read by its type's parser as {r:?}", hex(&v))),
        }
    }
    cov.label("built");
    cov.nontrivial(&v, || format!("{} built", hex(&v)));
    Ok(())
}

/// wrapping in explicit and implicit tags
fn c11_wrap(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let class = *s.pick(&[2u8, 1, 3]);
    let tag = gen::other_tag(s);
    let n;
    let b;
    let (o, ty) = if s.chance(1, 2) {
        n = tree::node(s, 3, 0, false);
        (tree::build(&n), Some(n.t.tag()))
    } else {
        b = gen::one(s, &gen::BER);
        let Ok((_, o)) = parse_ber(&b) else { return Ok(()) };
        let known = o.header.class() == Class::Universal && !matches!(o.content, BerObjectContent::Unknown(_));
        let ty = known.then_some(o.header.tag().0);
        (o, ty)
    };
    let base = encode(&o)?;
    let cl = class_of(class);
    let v: Vec<u8> = cookie_factory::gen_simple(ber_encode_tagged_explicit(Tag(tag), cl, &o), Vec::new())
        .map_err(|e| format!("explicit tag {tag}: encoding fails: {e:?}"))?;
    let what = format!("{} in explicit tag class {class} number {tag}", hex(&base));
    if v != gen::tlv(class, true, tag, &base) {
        return Err(format!("{what}: encoded as {}", hex(&v)));
    }
    for der in [false, true] {
        if der && parse_der(&base).is_err() {
            continue;
        }
        let r = if der { parse_der_tagged_explicit(Tag(tag), parse_der)(&v) } else { parse_ber_tagged_explicit(Tag(tag), parse_ber)(&v) };
        match r {
            Ok((rem, t)) => match &t.content {
                BerObjectContent::Tagged(c2, t2, x)
                    if rem.is_empty() && *c2 == cl && t2.0 == tag && values(&dump(x)) == values(&dump(&o)) =>
                {
                    // and the tagged object itself encodes to the same bytes
                    let back = |v: &[u8]| -> Result<(usize, D, Vec<u8>), String> {
                        let (rem, o) = parse_ber_tagged_explicit(Tag(tag), parse_ber)(v).map_err(|e| format!("{e:?}"))?;
                        Ok((rem.len(), dump(&o), encode(&o)?))
                    };
                    round(&what, &t, Some(&v), &back)?;
                    // under a further implicit tag it keeps its form and content
                    let (cl2, tag2) = (*s.pick(&[2u8, 1, 3]), gen::other_tag(s));
                    let w: Vec<u8> = cookie_factory::gen_simple(ber_encode_tagged_implicit(Tag(tag2), class_of(cl2), &t), Vec::new())
                        .map_err(|e| format!("{what}: implicit tag {tag2}: encoding fails: {e:?}"))?;
                    if w != gen::tlv(cl2, true, tag2, &base) {
                        return Err(format!("{what}: with implicit tag class {cl2} number {tag2} encoded as {}", hex(&w)));
                    }
                    match parse_ber_tagged_explicit(Tag(tag2), parse_ber)(&w) {
                        Ok((rem, t)) if rem.is_empty() => match &t.content {
                            BerObjectContent::Tagged(c2, t2, x)
                                if *c2 == class_of(cl2) && t2.0 == tag2 && values(&dump(x)) == values(&dump(&o)) => {}
                            c => return Err(format!("{what}: {} reads back as {c:?}", hex(&w))),
                        },
                        r => return Err(format!("{what}: {} reads back as {r:?}", hex(&w))),
                    };
                }
                c => return Err(format!("{what}: {} reads back as {c:?}", hex(&v))),
            },
            Err(e) => return Err(format!("{what}: {} does not read back: {e:?}", hex(&v))),
        }
    }
    // optional wrapper around it
    if let Ok((_, op)) = parse_ber_explicit_optional(&v, Tag(tag), parse_ber) {
        let w = encode(&op)?;
        if w != v {
            return Err(format!("{what}: read as optional, encoded as {} instead of {}", hex(&w), hex(&v)));
        }
        cov.label("optional present");
    }
    // an element of unknown type keeps its form and content under an implicit tag
    if let (BerObjectContent::Unknown(_), Ok(hb)) = (&o.content, read_hdr(&base, 0)) {
        let w: Vec<u8> = cookie_factory::gen_simple(ber_encode_tagged_implicit(Tag(tag), cl, &o), Vec::new())
            .map_err(|e| format!("implicit tag {tag}: encoding fails: {e:?}"))?;
        let what = format!("{} in implicit tag class {class} number {tag}", hex(&base));
        if w != gen::tlv(class, hb.cons, tag, &base[hb.body..]) {
            return Err(format!("{what}: encoded as {}", hex(&w)));
        }
        match parse_ber(&w) {
            Ok((rem, x)) if rem.is_empty() => {
                let (g, want) = (values(&dump(&x)), values(&dump(&o)));
                let same = match (&g.c, &want.c) {
                    (DC::Unknown(_, a), DC::Unknown(_, b)) => a == b,
                    _ => false,
                };
                if !same || g.h.class != class || g.h.tag != tag || g.h.cons != hb.cons {
                    return Err(format!("{what}: {} reads back as {g:?}", hex(&w)));
                }
            }
            r => return Err(format!("{what}: {} reads back as {r:?}", hex(&w))),
        }
        cov.label("implicit tag on an unknown type");
        cov.label_if(hb.cons, "implicit tag on an unknown constructed type");
    }
    if let Some(ty) = ty {
        let v: Vec<u8> = cookie_factory::gen_simple(ber_encode_tagged_implicit(Tag(tag), cl, &o), Vec::new())
            .map_err(|e| format!("implicit tag {tag}: encoding fails: {e:?}"))?;
        let what = format!("{} in implicit tag class {class} number {tag}", hex(&base));
        let hb = read_hdr(&base, 0).map_err(|_| format!("{what}: no header in {}", hex(&base)))?;
        if v != gen::tlv(class, o.header.constructed(), tag, &base[hb.body..]) {
            return Err(format!("{what}: encoded as {}", hex(&v)));
        }
        match parse_ber_tagged_implicit(Tag(tag), parse_ber_content(Tag(ty)))(&v) {
            Ok((rem, t)) => {
                let mut want = values(&dump(&o));
                want.h.class = class;
                want.h.tag = tag;
                if !rem.is_empty() || values(&dump(&t)) != want {
                    return Err(format!("{what}: {} reads back as {}", hex(&v), diff(&values(&dump(&t)), &want)));
                }
                let back = |v: &[u8]| -> Result<(usize, D, Vec<u8>), String> {
                    let (rem, o) = parse_ber_tagged_implicit(Tag(tag), parse_ber_content(Tag(ty)))(v).map_err(|e| format!("{e:?}"))?;
                    Ok((rem.len(), dump(&o), encode(&o)?))
                };
                round(&what, &t, Some(&v), &back)?;
            }
            Err(e) => return Err(format!("{what}: {} does not read back: {e:?}", hex(&v))),
        }
        cov.label("implicit");
    }
    cov.label_if(tag >= 31, "high tag number");
    cov.nontrivial(&(v, class), || format!("[class {class} tag {tag}] {}", hex(&base)));
    Ok(())
}

/// headers on their own: any class, tag number and length
fn c11_header(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let class = s.below(4) as u8;
    let cons = s.chance(1, 2);
    let tag = gen::other_tag(s);
    let len = match s.weighted(&[9, 9, 3, 2]) {
        3 => Len::Def(s.lit(1 << 32) as usize),
        0 => Len::Def(s.usize(600)),
        1 => {
            let k = s.below(32);
            Len::Def(((1u64 << k) + s.below(5)).saturating_sub(2) as usize)
        }
        _ if cons => Len::Indef,
        _ => Len::Def(0),
    };
    let h = tree::lib_header(&DH { class, cons, tag, len, raw: None });
    let v: Vec<u8> = cookie_factory::gen_simple(ber_encode_header(&h), Vec::new()).map_err(|e| format!("header {h:?}: {e:?}"))?;
    let mut w = vec![];
    gen::put_tag(&mut w, class, cons, tag);
    match len {
        Len::Def(n) => gen::put_len(&mut w, n),
        Len::Indef => w.push(0x80),
    }
    if v != w {
        return Err(format!("header {h:?} encoded as {}, expected {}", hex(&v), hex(&w)));
    }
    match ber_read_element_header(&v) {
        Ok((rem, h2)) if rem.is_empty() && (DH { raw: None, ..dh(&h2) }) == (DH { class, cons, tag, len, raw: None }) => {}
        r => return Err(format!("header {h:?} encoded as {} reads back as {r:?}", hex(&v))),
    }
    cov.label_if(tag >= 31, "header with high tag number");
    cov.nontrivial(&v, || format!("header {}", hex(&v)));
    Ok(())
}

/// objects from the sequence/set and optional combinators
fn c11_combi(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let set = s.chance(1, 2);
    let mut c = vec![];
    for _ in 0..s.usize(5) {
        gen::element(s, &gen::BER, 3, &mut 5, &mut c);
    }
    let b = gen::tlv(0, true, if set { T_SET } else { T_SEQ }, &c);
    let r = if set { parse_ber_set_of(parse_ber)(&b) } else { parse_ber_sequence_of(parse_ber)(&b) };
    let Ok((_, o)) = r else { return Ok(()) };
    let v = round(&format!("'of' object {}", hex(&b)), &o, None, &back_generic(false))?;
    match parse_ber(&b) {
        Ok((_, g)) => {
            if encode(&g)? != v {
                return Err(format!("{}: the 'of' object and the generic object encode differently", hex(&b)));
            }
        }
        Err(e) => return Err(format!("{}: accepted by the 'of' combinator only ({e:?})", hex(&b))),
    }
    // optional: present encodes as the value, absent as nothing
    match parse_ber_optional(parse_ber)(&b) {
        Ok((_, p)) => {
            let w = encode(&p)?;
            if w != v {
                return Err(format!("{}: optional value encodes as {} instead of {}", hex(&b), hex(&w), hex(&v)));
            }
        }
        Err(e) => return Err(format!("parse_ber_optional fails on {}: {e:?}", hex(&b))),
    }
    if let Ok((_, p)) = parse_ber_optional(parse_ber_integer)(&b) {
        let w = encode(&p)?;
        if !w.is_empty() {
            return Err(format!("absent optional value encodes as {}", hex(&w)));
        }
        // as a member, it leaves no trace
        let holder = BerObject::from_seq(vec![BerObject::from_int_slice(b"\x01"), p, o.clone()]);
        let w = encode(&holder)?;
        let mut want = vec![2, 1, 1];
        want.extend(&v);
        if w != gen::tlv(0, true, T_SEQ, &want) {
            return Err(format!("sequence with an absent optional member encodes as {}", hex(&w)));
        }
    }
    cov.label("from combinators");
    cov.nontrivial(&v, || format!("of {}", hex(&v)));
    Ok(())
}

/// long contents: every length form of the output
fn c11_long(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let n = match s.below(4) {
        0 => s.range(120, 140),
        1 => s.range(250, 262),
        2 => s.range(65530, 65540),
        _ if s.chance(1, 3) => s.lit(70_000) as usize,
        _ => s.range(0, 3000),
    };
    let fill = s.byte();
    let data = vec![fill; n];
    let tag = *s.pick(&[T_OCTETS, T_INT, T_BITS, T_UNIVERSAL]);
    let mut c = data.clone();
    if tag == T_BITS {
        c.insert(0, 0);
    }
    let leaf = gen::tlv(0, false, tag, &c);
    let b = if s.chance(1, 2) { gen::tlv(0, true, T_SEQ, &leaf) } else { leaf };
    let Ok((_, o)) = parse_ber(&b) else { return Ok(()) };
    round(&format!("{n}-octet content, tag {tag}"), &o, Some(&b), &back_generic(false))?;
    cov.label("long content");
    cov.nontrivial(&(n, tag, b.len()), || format!("{n} octets of {fill:02x} as tag {tag}"));
    Ok(())
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        rule: "objects parsed (BER and DER) from generated inputs of every kind, every 0..2-octet (thorough 3) input, objects built with the constructors, objects from tagging/optional/of combinators, contents around the length-form boundaries, headers of any class/tag/length. Each is encoded, compared with an independent canonical encoder, parsed back, compared, encoded again. Non-trivial: an object longer than 3 octets was encoded.",
        subs: vec![
            Sub { name: "parsed", size: Size::Random(1_000_000, 10_000_000), run: c11_random },
            Sub { name: "short", size: Size::Exhaustive(gen::SHORT2, gen::SHORT3), run: c11_short },
            Sub { name: "large", size: Size::List(gen::large_huge_codes), run: c11_large },
            Sub { name: "big", size: Size::Random(3_000, 60_000), run: c11_big },
            Sub { name: "built", size: Size::Random(600_000, 5_000_000), run: c11_built },
            Sub { name: "wrap", size: Size::Random(600_000, 5_000_000), run: c11_wrap },
            Sub { name: "header", size: Size::Random(800_000, 4_000_000), run: c11_header },
            Sub { name: "combinators", size: Size::Random(400_000, 3_000_000), run: c11_combi },
            Sub { name: "long", size: Size::Random(8_000, 40_000), run: c11_long },
        ],
        assumptions: &[
            "the byte form of times that are not in the DER shape is only required to parse back to the same value",
            "objects built with from_obj around tagged values are outside the property",
        ],
        debug_scale: 0.0,
    }
}
