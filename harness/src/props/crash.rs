//! C01: no input can crash the library
use crate::cmp::*;
use crate::driver::{peak_of, Prop};
use crate::engine::*;
use crate::gen::{self, hex};
use crate::parsers::*;
use crate::refm::*;
use der_parser::asn1_rs::{Any, Class, FromBer, FromDer, Header, Length, Tag};
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::{BerError, BerResult};
use der_parser::nom;
use std::fmt::Debug;

/// heap a parse of n input bytes may hold at any time (an object takes about 150 octets and the
/// shortest element two, vectors double; the limit leaves a factor of five)
fn allowed(n: usize) -> i64 {
    16_384 + 2_048 * n as i64
}

struct Quiet(usize);
impl<'a> Visit<'a> for Quiet {
    fn visit_ber(&mut self, _: &'_ BerObject<'a>, d: usize) {
        self.0 = self.0.max(d)
    }
}
impl<'a> VisitMut<'a> for Quiet {
    fn visit_ber_mut(&mut self, _: &'_ mut BerObject<'a>, d: usize) {
        self.0 = self.0.max(d)
    }
}

fn touch<T, E: Debug>(r: Result<T, E>) {
    if let Err(e) = r {
        std::hint::black_box(format!("{e:?}"));
    }
}

/// everything a caller can do with an object
fn consume(o: &BerObject) {
    fn scalar(o: &BerObject) {
        touch(o.as_i64());
        touch(o.as_i32());
        touch(o.as_u64());
        touch(o.as_u32());
        touch(o.as_bool());
        touch(o.as_oid().map(|x| (x.to_id_string(), x.iter().map(|i| i.count()))));
        touch(o.as_oid_val());
        touch(o.as_optional());
        touch(o.as_tagged());
        touch(o.as_bitstring_ref().map(|b| {
            for i in [0, 1, 7, 8, 63, 64, b.data.len() * 8, usize::MAX] {
                std::hint::black_box(b.is_set(i));
            }
            b.as_bitslice().map(|x| x.len())
        }));
        touch(o.as_bitstring());
        touch(o.as_bitslice().map(|b| b.len()));
        touch(o.as_sequence());
        touch(o.as_set());
        touch(o.as_slice());
        touch(o.as_str());
        touch(o.as_bigint());
        touch(o.as_biguint());
        touch(o.assert_class(Class::Universal));
        touch(o.assert_tag(Tag(0)));
        touch(o.assert_constructed());
        touch(o.assert_primitive());
        if let BerObjectContent::UTCTime(t) | BerObjectContent::GeneralizedTime(t) = &o.content {
            std::hint::black_box(format!("{t} {t:?}"));
        }
        for m in o.ref_iter() {
            scalar(m);
        }
        if let BerObjectContent::Optional(Some(x)) | BerObjectContent::Tagged(_, _, x) = &o.content {
            scalar(x);
        }
    }
    scalar(o);
    let mut n = o.ref_iter().count();
    if let BerObjectContent::Sequence(_) | BerObjectContent::Set(_) = &o.content {
        for i in 0..n {
            std::hint::black_box(o[i].tag());
        }
    }
    for m in o.clone() {
        n += std::hint::black_box(&m).header.tag().0 as usize & 1;
    }
    std::hint::black_box(n);
    Visit::run(&mut Quiet(0), o);
    Visit::run_at(&mut Quiet(0), o, 7);
    let p = Box::into_raw(Box::new(o.clone()));
    VisitMut::run(&mut Quiet(0), unsafe { &mut *p });
    drop(unsafe { Box::from_raw(p) });
    std::hint::black_box(format!("{o:?}"));
    for f in [vec![], vec![PrettyPrinterFlag::Recursive], vec![PrettyPrinterFlag::ShowHeader], vec![PrettyPrinterFlag::Recursive, PrettyPrinterFlag::ShowHeader]] {
        let text = format!("{:?}", PrettyBer::new(o, f.clone(), 1, 2));
        // indentation far beyond any screen, for a part of the small objects (it is slow)
        let sum = text.bytes().fold(0u32, |a, b| a.wrapping_mul(31).wrapping_add(b as u32));
        if sum % 2048 == 17 && text.len() < 500 {
            for (indent, inc) in [(65_535, 0), (0, 65_536), (65_530, 3), (131_073, 1)] {
                std::hint::black_box(format!("{:?}", PrettyBer::new(o, f.clone(), indent, inc)));
            }
        }
        std::hint::black_box(text);
    }
    touch(o.to_vec());
    touch(cookie_factory::gen_simple(ber_encode_object(o), Vec::new()).map(|v| v.len()));
    touch(cookie_factory::gen_simple(ber_encode_header(&o.header), Vec::new()).map(|v| v.len()));
    touch(cookie_factory::gen_simple(ber_encode_object_raw(&o.header, &o.content), Vec::new()).map(|v| v.len()));
    touch(cookie_factory::gen_simple(ber_encode_tagged_explicit(Tag(200), Class::Private, o), Vec::new()).map(|v| v.len()));
    touch(cookie_factory::gen_simple(ber_encode_tagged_implicit(Tag(3), Class::ContextSpecific, o), Vec::new()).map(|v| v.len()));
    std::hint::black_box(o == &o.clone());
}

struct Run<'c> {
    cov: &'c mut Cov,
    ok: u64,
}

impl Run<'_> {
    /// a parse call: the input it was given, the call itself, what to do with a result
    fn call<'a, T: 'a, E: Debug>(
        &mut self,
        what: &str,
        b: &'a [u8],
        f: impl FnOnce(&'a [u8]) -> nom::IResult<&'a [u8], T, E>,
        use_: impl FnOnce(T),
    ) -> Result<(), String> {
        let (r, peak) = no_panic(what, || peak_of(|| f(b)))?;
        if peak > allowed(b.len()) {
            return Err(format!("{what}: {peak} octets of heap while parsing {} octets of input", b.len()));
        }
        no_panic(&format!("result of {what}"), || match r {
            Ok((rem, x)) => {
                self.ok += 1;
                std::hint::black_box(rem.len());
                use_(x);
            }
            Err(e) => {
                std::hint::black_box(format!("{e:?}"));
                if let nom::Err::Incomplete(nom::Needed::Size(n)) = e {
                    std::hint::black_box(n.get());
                }
            }
        })
    }
    fn obj<'a>(&mut self, what: &str, b: &'a [u8], f: impl FnOnce(&'a [u8]) -> BerResult<'a>) -> Result<(), String> {
        self.call(what, b, f, |o| consume(&o))
    }
}

struct Params {
    tag: u32,
    other: u32,
    n: usize,
    len: Length,
    cons: bool,
}

fn every(b: &[u8], p: &Params, cov: &mut Cov) -> Result<(), String> {
    let mut r = Run { cov, ok: 0 };
    let t = Tag(p.tag);
    for der in [false, true] {
        let f = if der { "DER" } else { "BER" };
        r.obj(&format!("{f} generic"), b, |i| generic(i, der))?;
        r.obj(&format!("{f} recursive {}", p.n), b, |i| recursive(i, p.n, der))?;
        for x in TYPED {
            let g = if der { x.der } else { x.ber };
            r.obj(&format!("{} ({f})", x.name), b, g)?;
        }
        r.obj(&format!("{f} with tag"), b, |i| with_tag(i, p.tag, der))?;
        r.call(&format!("{f} header"), b, |i| header(i, der), |h| {
            std::hint::black_box(format!("{h:?}"));
            touch(cookie_factory::gen_simple(ber_encode_header(&h), Vec::new()).map(|v| v.len()));
        })?;
        r.call(&format!("{f} slice"), b, |i| slice_of(i, p.tag, der), |_| {})?;
        r.call(&format!("{f} container"), b, |i| container(i, der), |_| {})?;
        // content with the header that was read, as its own and as another type
        if let Ok((i, h)) = header(b, der) {
            for tag in [h.tag().0, p.tag, p.other] {
                r.call(&format!("{f} content as {tag}"), i, |i| content_as(i, tag, &h, p.n, der), |c| {
                    consume(&BerObject::from_header_and_content(h.clone(), c));
                })?;
            }
            let h2 = h.clone();
            let h3 = h.clone();
            if der {
                r.call("parse_der_content", i, |i| parse_der_content(t)(i, &h2, p.n), |c| consume(&BerObject::from_obj(c)))?;
                r.call("parse_der_content2", i, |i| parse_der_content2(t)(i, h3, p.n), |c| consume(&BerObject::from_obj(c)))?;
                r.obj("der_read_element_content", i, |i| der_read_element_content(i, h2))?;
            } else {
                r.call("parse_ber_content", i, |i| parse_ber_content(t)(i, &h2, p.n), |c| consume(&BerObject::from_obj(c)))?;
                r.call("parse_ber_content2", i, |i| parse_ber_content2(t)(i, h3, p.n), |c| consume(&BerObject::from_obj(c)))?;
            }
        }
        // content with an arbitrary header
        let h = Header::new(class_of((p.other % 4) as u8), p.cons, Tag(p.other), p.len);
        for tag in [p.tag, p.other] {
            r.call(&format!("{f} content, made-up header {h:?}, as {tag}"), b, |i| content_as(i, tag, &h, p.n, der), |c| {
                consume(&BerObject::from_header_and_content(h.clone(), c));
            })?;
        }
        if der {
            let h2 = h.clone();
            r.obj("der_read_element_content, made-up header", b, |i| der_read_element_content(i, h2))?;
        }
    }
    r.call("parse_ber_i32", b, parse_ber_i32, |_| {})?;
    r.call("parse_ber_i64", b, parse_ber_i64, |_| {})?;
    r.call("parse_ber_u32", b, parse_ber_u32, |_| {})?;
    r.call("parse_ber_u64", b, parse_ber_u64, |_| {})?;
    r.call("parse_der_i32", b, parse_der_i32, |_| {})?;
    r.call("parse_der_i64", b, parse_der_i64, |_| {})?;
    r.call("parse_der_u32", b, parse_der_u32, |_| {})?;
    r.call("parse_der_u64", b, parse_der_u64, |_| {})?;
    // raw elements
    r.call("parse_ber_any", b, parse_ber_any, |a| {
        touch(BerObject::try_from(&a).map(|o| consume(&o)));
        touch(BerObject::try_from(a).map(|o| consume(&o)));
    })?;
    r.call("Any::from_ber", b, |i| Any::from_ber(i), |a| touch(BerObject::try_from(a).map(|o| consume(&o))))?;
    r.call("Any::from_der", b, |i| Any::from_der(i), |a| touch(BerObject::try_from(a).map(|o| consume(&o))))?;
    r.obj("parse_ber_any_r", b, |i| parse_ber_any_r(i, p.n))?;
    r.obj("parse_ber_any_with_tag_r", b, |i| parse_ber_any_with_tag_r(i, t, p.n))?;
    // combinators
    r.obj("parse_ber_sequence_of", b, |i| parse_ber_sequence_of(parse_ber)(i))?;
    r.obj("parse_ber_set_of", b, |i| parse_ber_set_of(parse_ber)(i))?;
    r.obj("parse_der_sequence_of", b, |i| parse_der_sequence_of(parse_der)(i))?;
    r.obj("parse_der_set_of", b, |i| parse_der_set_of(parse_der)(i))?;
    r.obj("parse_ber_sequence_of optional", b, |i| parse_ber_sequence_of(|j| parse_ber_optional(parse_ber_integer)(j))(i))?;
    r.obj("parse_der_set_of optional", b, |i| parse_der_set_of(|j| parse_ber_optional(parse_der_bool)(j))(i))?;
    r.call("parse_ber_sequence_of_v", b, |i| parse_ber_sequence_of_v(parse_ber_u32)(i), |_| {})?;
    r.call("parse_ber_set_of_v", b, |i| parse_ber_set_of_v(parse_ber_u32)(i), |_| {})?;
    r.call("parse_der_sequence_of_v", b, |i| parse_der_sequence_of_v(parse_der_i64)(i), |_| {})?;
    r.call("parse_der_set_of_v", b, |i| parse_der_set_of_v(parse_der_i64)(i), |_| {})?;
    fn pair<'a>(i: &'a [u8]) -> BerResult<'a, Vec<BerObject<'a>>> {
        let (i, a) = parse_ber(i)?;
        let (i, b) = parse_ber_optional(parse_ber_integer)(i)?;
        Ok((i, vec![a, b]))
    }
    fn pair_g<'a>(i: &'a [u8]) -> BerResult<'a, (BerObject<'a>, u32)> {
        let (i, a) = parse_der(i)?;
        let (i, b) = parse_der_u32(i)?;
        Ok((i, (a, b)))
    }
    r.obj("parse_ber_sequence_defined", b, |i| parse_ber_sequence_defined(pair)(i))?;
    r.obj("parse_ber_set_defined", b, |i| parse_ber_set_defined(pair)(i))?;
    r.obj("parse_der_sequence_defined", b, |i| parse_der_sequence_defined(pair)(i))?;
    r.obj("parse_der_set_defined", b, |i| parse_der_set_defined(pair)(i))?;
    r.call("parse_ber_sequence_defined_g", b, |i| parse_ber_sequence_defined_g(|c, _| pair_g(c))(i), |_| {})?;
    r.call("parse_ber_set_defined_g", b, |i| parse_ber_set_defined_g(|c, _| pair_g(c))(i), |_| {})?;
    r.call("parse_der_sequence_defined_g", b, |i| parse_der_sequence_defined_g(|c, _| pair_g(c))(i), |_| {})?;
    r.call("parse_der_set_defined_g", b, |i| parse_der_set_defined_g(|c, _| pair_g(c))(i), |_| {})?;
    r.obj("parse_ber_tagged_explicit", b, |i| parse_ber_tagged_explicit(t, parse_ber)(i))?;
    r.obj("parse_der_tagged_explicit", b, |i| parse_der_tagged_explicit(t, parse_der)(i))?;
    r.obj("parse_ber_tagged_implicit", b, |i| parse_ber_tagged_implicit(t, parse_ber_content(Tag(p.other)))(i))?;
    r.obj("parse_der_tagged_implicit", b, |i| parse_der_tagged_implicit(t, parse_der_content(Tag(p.other)))(i))?;
    r.obj("parse_ber_implicit", b, |i| parse_ber_implicit(i, t, parse_ber_content(Tag(p.other))))?;
    r.obj("parse_der_implicit", b, |i| parse_der_implicit(i, t, parse_der_content(Tag(p.other))))?;
    r.call("parse_ber_tagged_explicit_g", b, |i| parse_ber_tagged_explicit_g::<_, _, _, BerError>(t, |c, h| parse_ber(c).map(|(r, o)| (r, (o, h))))(i), |(o, _)| consume(&o))?;
    r.call("parse_der_tagged_explicit_g", b, |i| parse_der_tagged_explicit_g::<_, _, _, BerError>(t, |c, h| parse_der(c).map(|(r, o)| (r, (o, h))))(i), |(o, _)| consume(&o))?;
    r.call("parse_ber_tagged_implicit_g", b, |i| parse_ber_tagged_implicit_g::<_, _, _, BerError>(t, parse_ber_content2(Tag(p.other)))(i), |c| consume(&BerObject::from_obj(c)))?;
    r.call("parse_der_tagged_implicit_g", b, |i| parse_der_tagged_implicit_g::<_, _, _, BerError>(t, parse_der_content2(Tag(p.other)))(i), |c| consume(&BerObject::from_obj(c)))?;
    r.obj("parse_ber_optional", b, |i| parse_ber_optional(parse_ber)(i))?;
    r.obj("parse_ber_explicit_optional", b, |i| parse_ber_explicit_optional(i, t, parse_ber))?;
    r.obj("parse_der_explicit_optional", b, |i| parse_der_explicit_optional(i, t, parse_der))?;
    let ok = r.ok;
    let cov = r.cov;
    // parse_ber_optional never fails, so "at least two" means some parser accepted the input
    if ok > 3 {
        cov.label("accepted by some parser");
        cov.nontrivial(b, || if b.len() <= 100 { hex(b) } else { format!("{} octets, {}...", b.len(), hex(&b[..60])) });
    } else {
        cov.label("refused by every parser");
    }
    Ok(())
}

fn params(s: &mut Src, b: &[u8]) -> Params {
    // tags that make the tag-checked parsers go on: those of the input
    let own = read_hdr(b, 0).map(|h| h.tag).unwrap_or(0);
    let tag = if s.chance(2, 3) { own } else { s.below(32) as u32 };
    let other = match s.below(3) {
        0 => own,
        1 => s.below(32) as u32,
        _ => gen::other_tag(s),
    };
    let len = match s.weighted(&[3, 2, 2, 1]) {
        0 => Length::Definite(s.usize(b.len() + 3)),
        1 => Length::Definite(b.len().saturating_sub(s.usize(3))),
        2 => Length::Indefinite,
        _ => Length::Definite(*s.pick(&[usize::MAX, usize::MAX - 1, 1 << 32, (1 << 32) - 1, 1 << 31, 1 << 20, isize::MAX as usize])),
    };
    Params { tag, other, n: *s.pick(&[50usize, 0, 1, 2, 3, 5, 49]), len, cons: s.chance(1, 2) }
}

fn c01_random(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let der = s.chance(1, 3);
    let b = gen::input(s, der);
    let p = params(s, &b);
    every(&b, &p, cov).map_err(|e| format!("input {}: {e}", hex(&b)))
}

fn c01_short(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let idx = s.u64();
    let b = gen::short(idx);
    // the rest of the parameters is a function of the index
    let mut q = Src::from_seed(mix(idx, 0x51));
    let p = params(&mut q, &b);
    every(&b, &p, cov).map_err(|e| format!("input {}: {e}", hex(&b)))
}

/// every (tag, length octets) head over a few contents: arithmetic on lengths
fn c01_lengths(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let mut b = vec![];
    let depth = s.usize(4);
    for _ in 0..depth {
        b.push(*s.pick(&[0x30u8, 0x31, 0xa0, 0x61, 0x24, 0x23]));
        wild_len(s, &mut b);
    }
    let tag = if s.chance(1, 6) { s.byte() } else { *s.pick(&[1u8, 2, 3, 4, 5, 6, 7, 9, 10, 12, 13, 19, 23, 24, 28, 30, 0x80, 0xbf, 0x1f]) };
    b.push(tag);
    wild_len(s, &mut b);
    let n = s.usize(12);
    b.extend(s.bytes(n));
    let p = params(s, &b);
    cov.label("wild length");
    every(&b, &p, cov).map_err(|e| format!("input {}: {e}", hex(&b)))
}

fn wild_len(s: &mut Src, b: &mut Vec<u8>) {
    match s.below(6) {
        0 => b.push(s.below(0x81) as u8),
        1 => b.push(s.below(12) as u8),
        2 => b.push(0x80),
        k => {
            let n = if k == 3 { s.range(1, 9) } else { s.range(1, 4) };
            b.push(0x80 | n as u8);
            let v = *s.pick(&[0u8, 0xff, 0x7f, 0x80, 1]);
            let mut l = vec![v; n];
            if s.chance(1, 2) {
                l[n - 1] = s.byte();
            }
            if s.chance(1, 3) {
                l[0] = 0;
            }
            b.extend(l);
        }
    }
}

fn big(s: &mut Src) -> Vec<u8> {
    match s.below(9) {
        // deep nesting
        0 | 1 => {
            let n = match s.below(3) {
                0 => s.range(40, 60),
                1 => s.range(100, 3000),
                _ => s.range(3000, 30000),
            };
            let kind = s.below(4);
            let style = s.below(3);
            let mut b = vec![];
            match style {
                // indefinite, terminated or not
                0 | 1 => {
                    for i in 0..n {
                        b.push(match kind {
                            0 => 0x30,
                            1 => 0x31,
                            2 => 0xa0,
                            _ => [0x30, 0xa1, 0x31, 0x6f, 0xff & 0x24][i % 5],
                        });
                        b.push(0x80);
                    }
                    if style == 0 {
                        b.extend(vec![0; 2 * n]);
                    }
                }
                // definite, built from the inside (length octets grow): keep it linear
                _ => {
                    let mut rev: Vec<u8> = vec![0, 5];
                    for i in 0..n.min(6000) {
                        let l = rev.len();
                        let mut h = vec![match kind {
                            0 => 0x30u8,
                            1 => 0x31,
                            2 => 0xa0,
                            _ => [0x30, 0xa1, 0x31, 0x7f][i % 4],
                        }];
                        if h[0] == 0x7f {
                            h.push(0x21);
                        }
                        gen::put_len(&mut h, l);
                        rev.extend(h.into_iter().rev());
                    }
                    rev.reverse();
                    return rev;
                }
            }
            b
        }
        // wide
        2 | 3 => {
            let n = s.range(1000, 20000);
            let item: &[u8] = s.pick(&[&[5u8, 0][..], &[2, 1, 0], &[0x30, 0], &[0x31, 0x80, 0, 0], &[0x80, 0], &[3, 1, 0], &[0x0c, 0], &[0x24, 0x80, 0, 0]]);
            let c: Vec<u8> = item.iter().copied().cycle().take(n * item.len()).collect();
            if s.chance(1, 3) {
                let mut b = vec![0x30, 0x80];
                b.extend(c);
                b.extend([0, 0]);
                b
            } else {
                gen::tlv(0, true, if s.chance(1, 2) { T_SEQ } else { T_SET }, &c)
            }
        }
        // one long primitive
        4 | 5 | 6 => {
            let n = s.range(1000, 60000);
            let fill = *s.pick(&[0u8, 0xff, 0x80, b'0', b'A', 0x01, 0x7f, 0xd8]);
            let tag = *s.pick(&[
                T_INT, T_ENUM, T_BITS, T_OID, T_RELOID, T_OCTETS, T_UTF8, T_BMP, T_UNIVERSAL, T_UTC, T_GENTIME, T_NUMERIC, T_PRINTABLE,
                T_T61, T_BOOL, T_NULL, 9, 8,
            ]);
            let mut c = vec![fill; n];
            for _ in 0..s.usize(4) {
                let at = s.usize(n);
                c[at] = s.byte();
            }
            if s.chance(1, 2) {
                c[0] = s.byte();
            }
            gen::tlv(*s.pick(&[0u8, 0, 0, 2]), s.chance(1, 5), tag, &c)
        }
        // long identifier octets
        7 => {
            let n = s.range(1, 2000);
            let mut b = vec![s.byte() | 0x1f];
            b.extend(vec![*s.pick(&[0xffu8, 0x80, 0x81]); n]);
            b.push(1);
            b.push(0);
            b
        }
        // many elements each announcing a huge length
        _ => {
            let n = s.range(10, 2000);
            let l: &[u8] = s.pick(&[&[0x84u8, 0xff, 0xff, 0xff, 0xff][..], &[0x84, 0x7f, 0xff, 0xff, 0xff], &[0x83, 0xff, 0xff, 0xff], &[0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], &[0x82, 0xff, 0xff]]);
            let t = *s.pick(&[0x30u8, 0x31, 4, 2, 0xa0, 3]);
            let mut b = vec![];
            for _ in 0..n {
                b.push(t);
                b.extend(l);
            }
            if s.chance(1, 2) {
                b = gen::tlv(0, true, T_SEQ, &b);
            }
            b
        }
    }
}

fn c01_big(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let b = big(s);
    let p = params(s, &b);
    cov.label("big input");
    every(&b, &p, cov).map_err(|e| format!("input of {} octets, {}...: {e}", b.len(), hex(&b[..b.len().min(40)])))
}

/// many values through few parsers and every consumer
fn c01_values(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let b = match s.weighted(&[6, 2, 2, 1]) {
        0 => {
            let tag = *s.pick(&gen::LEAVES);
            let bad = s.chance(1, 3);
            let c = gen::leaf_content(s, tag, &gen::BER, bad);
            gen::tlv(0, false, tag, &c)
        }
        1 => {
            let der = s.chance(1, 2);
            gen::input(s, der)
        }
        2 => gen::lead(s.below(gen::LEADS), &mut Src::from_seed(s.u64())),
        _ => {
            let mut b = gen::big(s);
            b.truncate(4000);
            b
        }
    };
    let mut run = Run { cov, ok: 0 };
    let err = |e: String| format!("input {}: {e}", hex(&b));
    let mut seen = false;
    for (what, der) in [("parse_ber", false), ("parse_der", true)] {
        let first = !seen;
        run.call(what, &b, |i| generic(i, der), |o| {
            // the other parser gives the same object: consume it once
            if first {
                consume(&o)
            }
            seen = true;
        })
        .map_err(err)?;
        if let Some(t) = read_hdr(&b, 0).ok().and_then(|h| typed(h.tag)) {
            run.call(t.name, &b, |i| if der { (t.der)(i) } else { (t.ber)(i) }, drop).map_err(err)?;
        }
    }
    if seen {
        cov.nontrivial(&b, || hex(&b));
    }
    Ok(())
}

/// nesting around the limit in every family, with values inside that consumers walk
fn c01_nest(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let n = s.range(45, 54);
    let mut v = vec![];
    gen::element(s, &gen::BER, 5, &mut 3, &mut v);
    for _ in 0..n {
        let cons = *s.pick(&[0x30u8, 0x31, 0x30, 0x31, 0xa3]);
        let mut b = vec![cons];
        if s.chance(1, 2) {
            b.push(0x80);
            b.extend(&v);
            b.extend([0, 0]);
        } else {
            gen::put_len(&mut b, v.len());
            b.extend(&v);
        }
        v = b;
    }
    let p = params(s, &v);
    cov.label("nesting around the limit");
    every(&v, &p, cov).map_err(|e| format!("input {}: {e}", hex(&v)))
}

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        rule: "inputs: valid, faulty, mutated and arbitrary byte strings, every 0..2-octet (thorough 3) input, wild length octets, nesting around and far beyond the limit, wide containers, long primitives, long identifiers, huge announced lengths. Each goes through every public entry point (all BER and DER parsers, content parsers with read and made-up headers, combinators, conversions), every object returned through every consumer; panics, arithmetic overflow, stack overflow (2 MiB threads, optimised and unoptimised build) and heap peaks above 16384 + 2048 per input octet are failures. A further, much larger set of values goes through the generic and per-type parsers and every consumer only. Non-trivial: at least one parser accepted the input.",
        subs: vec![
            Sub { name: "random", size: Size::Random(60_000, 2_000_000), run: c01_random },
            Sub { name: "values", size: Size::Random(700_000, 20_000_000), run: c01_values },
            Sub { name: "short", size: Size::Exhaustive(gen::SHORT2, gen::SHORT3 / 4), run: c01_short },
            Sub { name: "lengths", size: Size::Random(60_000, 2_000_000), run: c01_lengths },
            Sub { name: "big", size: Size::Random(600, 20_000), run: c01_big },
            Sub { name: "nest", size: Size::Random(4_000, 100_000), run: c01_nest },
        ],
        assumptions: &[
            "recursion limits up to the default are used; a larger limit given by the caller is the caller's choice",
            "indexing an object outside its members panics by documentation and is not exercised",
        ],
        debug_scale: 0.2,
    }
}
