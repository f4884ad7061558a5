//! C21: parsing is a pure function of the input; C22: equality of objects; C23: effort
use crate::cmp::*;
use crate::driver::Prop;
use crate::engine::*;
use crate::gen::{self, hex};
use crate::parsers::*;
use crate::props::limits::nest;
use crate::refm::*;
use crate::tree::{self, N, T};
use der_parser::asn1_rs::{Class, Tag};
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::{BerError, BerResult};
use der_parser::nom;
use std::fmt::Debug;

// ---------------------------------------------------------------- C21

/// an operation and its parameters
#[derive(Clone, Copy, Debug, PartialEq)]
struct Op {
    kind: usize,
    tag: u32,
    n: usize,
    der: bool,
}

fn told<'a, T, E: Debug>(b: &[u8], r: nom::IResult<&'a [u8], T, E>, show: impl FnOnce(T) -> String) -> String {
    match r {
        Ok((rem, x)) => {
            let at = if rem.is_empty() { b.len() } else { (rem.as_ptr() as usize).wrapping_sub(b.as_ptr() as usize) };
            format!("used {} (rest at {at}), {}", b.len() - rem.len(), show(x))
        }
        Err(e) => format!("{e:?}"),
    }
}

fn told_obj<'a>(b: &[u8], r: BerResult<'a>) -> String {
    told(b, r, |o| format!("{:?}", dump(&o)))
}

fn pair<'a>(i: &'a [u8]) -> BerResult<'a, Vec<BerObject<'a>>> {
    let (i, a) = parse_ber(i)?;
    let (i, b) = parse_ber_optional(parse_ber_integer)(i)?;
    Ok((i, vec![a, b]))
}

#[derive(Default)]
struct Log(Vec<(u32, usize)>);
impl<'a> VisitMut<'a> for Log {
    fn visit_ber_mut(&mut self, o: &'_ mut BerObject<'a>, d: usize) {
        self.0.push((o.header.tag().0, d))
    }
}
impl<'a> Visit<'a> for Log {
    fn visit_ber(&mut self, o: &'_ BerObject<'a>, d: usize) {
        self.0.push((o.header.tag().0, d))
    }
}

const KINDS: usize = 26;

/// the outcome of an operation, as text: consumed octets, full description of the result or error
fn perform(o: Op, b: &[u8]) -> String {
    let (t, der, n) = (Tag(o.tag), o.der, o.n);
    match o.kind {
        0 => told_obj(b, generic(b, der)),
        1 => told_obj(b, recursive(b, n, der)),
        2 => match typed(o.tag) {
            Some(x) => told_obj(b, if der { (x.der)(b) } else { (x.ber)(b) }),
            None => told_obj(b, with_tag(b, o.tag, der)),
        },
        3 => told_obj(b, with_tag(b, o.tag, der)),
        4 => told(b, header(b, der), |h| format!("{:?}", dh(&h))),
        5 => match header(b, der) {
            Ok((i, h)) => told(i, content_as(i, o.tag, &h, n, der), |c| format!("{:?}", dc(&c))),
            Err(e) => format!("{e:?}"),
        },
        6 => told(b, slice_of(b, o.tag, der), |x| format!("{x:?}")),
        7 => told(b, container(b, der), |(c, h)| format!("{:?} {c:?}", dh(&h))),
        8 => told(b, parse_ber_any(b), |a| match BerObject::try_from(a) {
            Ok(o) => format!("{:?}", dump(&o)),
            Err(e) => format!("{e:?}"),
        }),
        9 => told_obj(b, parse_ber_any_r(b, n)),
        10 => told_obj(b, if der { parse_der_sequence_of(parse_der)(b) } else { parse_ber_sequence_of(parse_ber)(b) }),
        11 => told_obj(b, if der { parse_der_set_of(parse_der)(b) } else { parse_ber_set_of(parse_ber)(b) }),
        12 => told(b, if der { parse_der_sequence_of_v(parse_der_u32)(b) } else { parse_ber_sequence_of_v(parse_ber_u32)(b) }, |v: Vec<u32>| {
            format!("{v:?}")
        }),
        13 => told_obj(b, if der { parse_der_sequence_defined(pair)(b) } else { parse_ber_sequence_defined(pair)(b) }),
        14 => told_obj(b, if der { parse_der_set_defined(pair)(b) } else { parse_ber_set_defined(pair)(b) }),
        15 => told_obj(b, if der { parse_der_tagged_explicit(t, parse_der)(b) } else { parse_ber_tagged_explicit(t, parse_ber)(b) }),
        16 => {
            let inner = Tag((n % 31) as u32);
            told_obj(b, if der { parse_der_tagged_implicit(t, parse_der_content(inner))(b) } else { parse_ber_tagged_implicit(t, parse_ber_content(inner))(b) })
        }
        17 => told_obj(b, if der { parse_ber_optional(parse_der_integer)(b) } else { parse_ber_optional(parse_ber)(b) }),
        18 => told_obj(b, if der { parse_der_explicit_optional(b, t, parse_der) } else { parse_ber_explicit_optional(b, t, parse_ber) }),
        19 => told(b, generic(b, der), |o| {
            format!("{:?}\n{o:?}", PrettyBer::new(&o, vec![PrettyPrinterFlag::Recursive, PrettyPrinterFlag::ShowHeader], n % 5, 2))
        }),
        20 => told(b, generic(b, der), |o| {
            let bytes = |r: Result<Vec<u8>, cookie_factory::GenError>| r.map_err(|e| format!("{e:?}"));
            format!(
                "{:?} {:?} {:?} {:?}",
                bytes(o.to_vec()),
                bytes(cookie_factory::gen_simple(ber_encode_header(&o.header), Vec::new())),
                bytes(cookie_factory::gen_simple(ber_encode_tagged_explicit(t, Class::Private, &o), Vec::new())),
                bytes(cookie_factory::gen_simple(ber_encode_tagged_implicit(t, Class::ContextSpecific, &o), Vec::new()))
            )
        }),
        21 => told(b, generic(b, der), |o| {
            format!(
                "{:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}",
                o.as_i64(),
                o.as_u32(),
                o.as_str(),
                o.as_slice(),
                o.as_oid().map(|x| x.to_id_string()),
                o.as_i32(),
                o.as_u64(),
                o.as_bigint(),
                o.as_biguint(),
                o.as_bitslice().map(|b| b.count_ones()),
                o.as_bitstring_ref().map(|b| (0..40).map(|i| b.is_set(i * n)).collect::<Vec<_>>())
            )
        }),
        22 => told(b, if der { parse_der_u64(b) } else { parse_ber_u64(b) }, |v| v.to_string()),
        // combinators inside combinators
        23 => told_obj(b, parse_ber_sequence_of(|i| parse_ber_set_of(|j| parse_ber_recursive(j, n))(i))(b)),
        24 => told(
            b,
            parse_ber_sequence_defined_g(|c, _| {
                let (i, a) = parse_ber_optional(parse_ber_tagged_explicit(t, |x| recursive(x, n, der)))(c)?;
                let (i, r) = parse_ber(i)?;
                Ok::<_, nom::Err<BerError>>((i, (a, r)))
            })(b),
            |(a, r)| format!("{:?} {:?}", dump(&a), dump(&r)),
        ),
        _ => told(b, generic(b, der), |o| {
            let mut l = Log::default();
            Visit::run(&mut l, &o);
            let own: Vec<u32> = o.clone().into_iter().map(|m| m.header.tag().0).collect();
            let c = o.clone();
            let mut d = o.clone();
            let p: *mut BerObject = &mut d;
            let mut v = Log::default();
            VisitMut::run(&mut v, unsafe { &mut *p });
            format!("{:?} {own:?} {:?} {} {:?} {:?}", l.0, o.ref_iter().count(), c == o, v.0, dump(&d))
        }),
    }
}

/// parsers that are built once and applied to many inputs
fn rebuilt<'a>(kind: usize, t: u32, n: usize) -> Box<dyn FnMut(&'a [u8]) -> BerResult<'a> + 'a> {
    let t = Tag(t);
    let inner = Tag((n % 31) as u32);
    match kind {
        0 => Box::new(parse_ber_sequence_of(parse_ber)),
        1 => Box::new(parse_der_sequence_of(parse_der)),
        2 => Box::new(parse_ber_set_of(parse_ber)),
        3 => Box::new(parse_der_set_of(parse_der)),
        4 => Box::new(parse_ber_sequence_defined(pair)),
        5 => Box::new(parse_der_sequence_defined(pair)),
        6 => Box::new(parse_ber_set_defined(pair)),
        7 => Box::new(parse_der_set_defined(pair)),
        8 => Box::new(parse_ber_tagged_explicit(t, parse_ber)),
        9 => Box::new(parse_der_tagged_explicit(t, parse_der)),
        10 => Box::new(parse_ber_tagged_implicit(t, parse_ber_content(inner))),
        11 => Box::new(parse_der_tagged_implicit(t, parse_der_content(inner))),
        12 => Box::new(parse_ber_optional(parse_ber_integer)),
        13 => Box::new(parse_ber_optional(parse_ber_tagged_explicit(t, parse_der))),
        14 => Box::new(parse_ber_sequence_of(|j| parse_ber_optional(parse_ber_integer)(j))),
        15 => Box::new(parse_ber_tagged_explicit(t, move |i| parse_ber_sequence_of(move |j| parse_ber_tagged_implicit(t, parse_ber_content(inner))(j))(i))),
        16 => Box::new(parse_ber_container(|c, _| parse_ber(c))),
        17 => Box::new(parse_der_container(|c, _| parse_der(c))),
        // content parsers
        18 | 19 => {
            let (f, g) = (parse_ber_content(inner), parse_der_content(inner));
            let der = kind == 19;
            Box::new(move |i| {
                let (i, h) = header(i, der)?;
                let (i, c) = if der { g(i, &h, 50)? } else { f(i, &h, 50)? };
                Ok((i, BerObject::from_header_and_content(h, c)))
            })
        }
        20 | 21 => {
            let (f, g) = (parse_ber_content2(inner), parse_der_content2(inner));
            let der = kind == 21;
            Box::new(move |i| {
                let (i, h) = header(i, der)?;
                let (i, c) = if der { g(i, h.clone(), 50)? } else { f(i, h.clone(), 50)? };
                Ok((i, BerObject::from_header_and_content(h, c)))
            })
        }
        // generic forms
        22 => Box::new(parse_ber_tagged_explicit_g(t, |c, h| {
            let (r, o) = parse_ber(c)?;
            Ok((r, BerObject::from_header_and_content(h, BerObjectContent::Optional(Some(Box::new(o))))))
        })),
        23 => Box::new(parse_der_tagged_explicit_g(t, |c, h| {
            let (r, o) = parse_der(c)?;
            Ok((r, BerObject::from_header_and_content(h, BerObjectContent::Optional(Some(Box::new(o))))))
        })),
        24 => {
            let f = parse_ber_content2(inner);
            Box::new(parse_ber_tagged_implicit_g(t, move |c, h: Header<'a>, n| {
                let (r, x) = f(c, h.clone(), n)?;
                Ok((r, BerObject::from_header_and_content(h, x)))
            }))
        }
        25 => {
            let f = parse_der_content2(inner);
            Box::new(parse_der_tagged_implicit_g(t, move |c, h: Header<'a>, n| {
                let (r, x) = f(c, h.clone(), n)?;
                Ok((r, BerObject::from_header_and_content(h, x)))
            }))
        }
        26 | 27 => {
            let mut f = parse_ber_sequence_of_v(parse_ber_i32);
            let mut g = parse_der_set_of_v(parse_der_i64);
            Box::new(move |i| {
                let (r, v): (_, Vec<i64>) = if kind == 26 {
                    f(i).map(|(r, v)| (r, v.into_iter().map(i64::from).collect()))?
                } else {
                    g(i)?
                };
                Ok((r, BerObject::from_seq(v.into_iter().map(|x| BerObject::from_obj(BerObjectContent::Enum(x as u64))).collect())))
            })
        }
        28 => Box::new(parse_ber_sequence_defined_g(|c, h: Header<'a>| {
            let (r, v) = pair(c)?;
            Ok((r, BerObject::from_header_and_content(h, BerObjectContent::Sequence(v))))
        })),
        29 => Box::new(parse_der_set_defined_g(|c, h: Header<'a>| {
            let (r, v) = pair(c)?;
            Ok((r, BerObject::from_header_and_content(h, BerObjectContent::Set(v))))
        })),
        30 => Box::new(parse_der_sequence_defined_g(|c, h: Header<'a>| {
            let (r, v) = pair(c)?;
            Ok((r, BerObject::from_header_and_content(h, BerObjectContent::Sequence(v))))
        })),
        _ => Box::new(parse_ber_set_defined_g(|c, h: Header<'a>| {
            let (r, v) = pair(c)?;
            Ok((r, BerObject::from_header_and_content(h, BerObjectContent::Set(v))))
        })),
    }
}
const REBUILT: usize = 32;

/// a small input that suits the parser
fn suits(kind: usize, t: u32, n: usize) -> Vec<u8> {
    let leaf: &[u8] = match n % 31 {
        2 => &[2, 1, 7],
        4 => &[4, 1, 7],
        12 => &[12, 1, 65],
        16 => &[0x30, 4, 0x31, 2, 5, 0],
        _ => &[5, 0],
    };
    let ints = [2u8, 1, 7, 2, 2, 1, 0];
    match kind {
        0 | 1 | 4 | 5 | 14 | 26 | 28 | 30 => gen::tlv(0, true, T_SEQ, &ints),
        2 | 3 | 6 | 7 | 27 | 29 | 31 => gen::tlv(0, true, T_SET, &ints),
        12 => vec![2, 1, 7],
        10 | 11 | 24 | 25 => gen::tlv(2, n % 31 == 16, t, &leaf[2..]),
        15 => gen::tlv(2, true, t, &gen::tlv(0, true, T_SEQ, &gen::tlv(2, n % 31 == 16, t, &leaf[2..]))),
        18..=21 => leaf.to_vec(),
        _ => gen::tlv(2, true, t, leaf),
    }
}

/// a parser value applied far more often than anything in a program's start-up
fn c21_worn(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let idx = s.usize(usize::MAX);
    let (kind, n) = (idx % REBUILT, [16usize, 2, 50, 4, 12][idx / REBUILT % 5]);
    let t = 3;
    let good = suits(kind, t, n);
    let bad = [&good[..good.len() - 1], &[0x1f, 0xff][..], &[0x0c, 1, 0xff]];
    let (want, want_bad) = (told_obj(&good, rebuilt(kind, t, n)(&good)), bad.map(|b| told_obj(b, rebuilt(kind, t, n)(b))));
    if !want.starts_with("used") {
        return Err(format!("parser {kind} (tag {t}, {n}) refuses {}: {want}", hex(&good)));
    }
    let mut p = rebuilt(kind, t, n);
    let uses = if n == 16 { 66_000 } else { 1_500 };
    for at in 0..uses {
        let got = told_obj(&good, p(&good));
        if got != want {
            return Err(format!("parser {kind} (tag {t}, {n}), application {at} to {}: {}\na new parser gives {}", hex(&good), clip(&got), clip(&want)));
        }
        if at % 500 == 499 {
            for (b, want) in bad.iter().zip(&want_bad) {
                let got = told_obj(b, p(b));
                if got != *want {
                    return Err(format!("parser {kind} (tag {t}, {n}), after application {at}, on {}: {}\na new parser gives {}", hex(b), clip(&got), clip(want)));
                }
            }
        }
    }
    cov.label("worn");
    cov.nontrivial(&idx, || format!("parser {kind} (inner {n}) applied {uses} times to {}", hex(&good)));
    Ok(())
}

/// an input of the pool: valid, faulty, too deep, cut short, announcing too much
fn pool_input(s: &mut Src) -> Vec<u8> {
    let der = s.chance(1, 2);
    match s.weighted(&[6, 4, 2, 2]) {
        0 => gen::input(s, der),
        1 => {
            let d = *s.pick(&[2usize, 3, 49, 50, 51, 52, 60, 100]);
            let mut b = nest(s, d, der, true, true);
            if s.chance(1, 3) {
                let tag = gen::other_tag(s);
                b = gen::tlv(2, true, tag, &b);
            }
            if s.chance(1, 4) {
                let k = s.usize(b.len());
                b.truncate(k);
            }
            b
        }
        2 => {
            let mut b = gen::one(s, if der { &gen::DER } else { &gen::BER });
            let k = s.usize(b.len().max(1));
            b.truncate(k);
            b
        }
        _ => {
            let mut b = vec![*s.pick(&[0x30u8, 0x31, 4, 2, 0xa0, 0x24])];
            b.extend(*s.pick(&[&[0x84u8, 0xff, 0xff, 0xff, 0xff][..], &[0x85, 1, 0, 0, 0, 0], &[0x80], &[0x83, 0xff, 0xff, 0xff], &[0x7f]]));
            let n = s.usize(6);
            b.extend(s.bytes(n));
            b
        }
    }
}

fn pool_op(s: &mut Src, b: &[u8]) -> Op {
    let own = read_hdr(b, 0).map(|h| h.tag).unwrap_or(0);
    Op {
        kind: s.usize(KINDS),
        tag: if s.chance(3, 4) { own } else { s.below(32) as u32 },
        n: *s.pick(&[50usize, 0, 1, 2, 5, 49]),
        der: s.chance(1, 2),
    }
}

/// almost the same octets: one changed (often late), two exchanged, two opposite changes
fn near(s: &mut Src, b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    if b.is_empty() {
        return vec![s.byte()];
    }
    let n = b.len();
    let at = |s: &mut Src| if s.chance(1, 2) { n - 1 - s.usize(n.min(4)) } else { s.usize(n) };
    match s.below(5) {
        0 | 1 => {
            let k = at(s);
            b[k] ^= 1 << s.below(8);
        }
        2 => {
            let k = at(s);
            b[k] = s.byte();
        }
        3 => {
            let (i, j) = (at(s), at(s));
            b.swap(i, j);
        }
        _ => {
            let (i, j) = (at(s), at(s));
            b[i] = b[i].wrapping_add(1);
            b[j] = b[j].wrapping_sub(1);
        }
    }
    b
}

fn on_thread<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|sc| {
        match std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, f).expect("spawn").join() {
            Ok(r) => r,
            Err(p) => std::panic::resume_unwind(p),
        }
    })
}

fn clip(x: &str) -> &str {
    let mut k = x.len().min(500);
    while !x.is_char_boundary(k) {
        k -= 1;
    }
    &x[..k]
}

/// operations whose outcome was noted before anything else happened in this process
fn first_outcomes() -> &'static [(Op, Vec<u8>, String)] {
    static FIRST: std::sync::OnceLock<Vec<(Op, Vec<u8>, String)>> = std::sync::OnceLock::new();
    FIRST.get_or_init(|| {
        let mut s = Src::from_seed(0x21);
        let s = &mut s;
        let mut v = vec![];
        // well-formed elements only: what comes first must not be the failure that spoils the rest
        for k in 0..120 {
            let der = k % 3 == 0;
            let b = match k % 4 {
                0 => nest(s, 1 + k / 3, der, true, true),
                1 => {
                    let b = gen::one(s, if der { &gen::DER } else { &gen::BER });
                    gen::tlv(2, true, (k % 40) as u32, &b)
                }
                _ => gen::one(s, if der { &gen::DER } else { &gen::BER }),
            };
            for _ in 0..3 {
                let op = pool_op(s, &b);
                v.push((op, b.clone()));
            }
            for der in [false, true] {
                v.push((Op { kind: 0, tag: 0, n: 0, der }, b.clone()));
            }
        }
        v.into_iter()
            .map(|(op, b)| {
                let r = perform(op, &b);
                (op, b, r)
            })
            .collect()
    })
}

/// outcomes in the course of a history equal those of the operation on its own
fn c21_history(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let first = no_panic("first operations", first_outcomes)?;
    let np = s.range(1, 4);
    let mut pool: Vec<Vec<u8>> = vec![];
    for k in 0..np {
        let b = if k > 0 && s.chance(2, 5) {
            let from = s.usize(k);
            near(s, &pool[from])
        } else {
            pool_input(s)
        };
        pool.push(b);
    }
    let nu = s.range(1, 7);
    let mut uses: Vec<(Op, usize)> = vec![];
    for i in 0..nu {
        let k = s.usize(np);
        let op = if i > 0 && s.chance(2, 5) { uses[s.usize(i)].0 } else { pool_op(s, &pool[k]) };
        uses.push((op, k));
    }
    let ns = s.range(2, 16);
    // (which use, how often, shift of the copy, octets beyond its end)
    let steps: Vec<(usize, usize, usize, u8)> = (0..ns)
        .map(|_| {
            let u = s.usize(nu);
            let reps = *s.pick(&[1usize, 1, 1, 2, 3, 60]);
            (u, reps, if s.chance(1, 2) { 0 } else { s.usize(9) }, *s.pick(&[0u8, 0xff, 0x30, 0x80, 2]))
        })
        .collect();
    let threads = if s.chance(1, 6) { 3 } else { 1 };
    // each on a thread of its own, before anything else happened there
    let mut alone: Vec<String> = vec![];
    for (op, k) in &uses {
        let (op, b) = (*op, &pool[*k]);
        alone.push(on_thread(|| no_panic("on its own", || perform(op, b)))?);
    }
    let run = |turn: usize| -> Result<(), String> {
        let mut room = vec![0u8; 16];
        for (at, (u, reps, shift, fill)) in steps.iter().cycle().skip(turn).take(ns).enumerate() {
            let (op, k) = uses[*u];
            let b = &pool[k];
            room.clear();
            room.resize(*shift, *fill);
            room.extend_from_slice(b);
            room.resize(shift + b.len() + 8, *fill);
            let view = &room[*shift..shift + b.len()];
            for r in 0..*reps {
                let got = no_panic("in a history", || perform(op, view))?;
                if got != alone[*u] {
                    return Err(format!(
                        "{op:?} on {} gives at step {at} (repetition {r}): {}\nbut on its own: {}",
                        hex(b),
                        clip(&got),
                        clip(&alone[*u])
                    ));
                }
            }
        }
        Ok(())
    };
    if threads == 1 {
        on_thread(|| run(0))?;
    } else {
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let run = &run;
                    std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, move || run(t)).expect("spawn")
                })
                .collect();
            let mut r = Ok(());
            for h in hs {
                match h.join() {
                    Ok(x) => r = r.and(x),
                    Err(p) => std::panic::resume_unwind(p),
                }
            }
            r
        })?;
    }
    // as when the process was young
    for _ in 0..8 {
        let (op, b, want) = s.pick(first);
        let got = perform(*op, b);
        if &got != want {
            return Err(format!("{op:?} on {} gives after other work: {}\nbut at first: {}", hex(b), clip(&got), clip(want)));
        }
    }
    // and afterwards on this thread, which has seen many cases
    for ((op, k), want) in uses.iter().zip(&alone) {
        let got = perform(*op, &pool[*k]);
        if &got != want {
            return Err(format!("{op:?} on {} gives after other work: {}\nbut on its own: {}", hex(&pool[*k]), clip(&got), clip(want)));
        }
    }
    cov.label_if(threads > 1, "concurrent");
    let ok = alone.iter().filter(|x| x.starts_with("used")).count();
    cov.label_if(ok > 0 && ok < alone.len(), "successes and failures mixed");
    cov.label_if(alone.iter().any(|x| x.contains("MaxDepth")), "a nesting failure in the history");
    cov.label_if(alone.iter().any(|x| x.contains("Incomplete")), "an incomplete input in the history");
    if ok > 0 && (nu > 1 || ns > 2) {
        cov.nontrivial(&(&pool, ns, nu), || format!("{} operations on {} inputs in {ns} steps, first {:?} on {}", nu, np, uses[0].0, hex(&pool[0])));
    }
    Ok(())
}

/// one operation on copies of its input at every alignment, with various octets around them
fn c21_place(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let b = match s.weighted(&[3, 3, 1, 1]) {
        0 => pool_input(s),
        1 => {
            // one primitive value, often with a length that is a multiple of a word
            let tag = *s.pick(&gen::LEAVES);
            let bad = s.chance(1, 3);
            let mut c = gen::leaf_content(s, tag, &gen::BER, bad);
            if s.chance(1, 2) {
                let k = *s.pick(&[4usize, 8, 16, 32, 64]);
                let fill = c.last().copied().unwrap_or(0x41);
                while c.len() % k != 0 {
                    c.insert(0, fill);
                }
            }
            if s.chance(1, 4) && !c.is_empty() {
                let k = s.usize(c.len());
                c[k] = s.byte();
            }
            let e = gen::tlv(0, false, tag, &c);
            if s.chance(1, 4) {
                gen::tlv(0, true, 16, &e)
            } else {
                e
            }
        }
        2 => gen::lead(s.below(gen::LEADS), &mut Src::from_seed(s.u64())),
        _ => {
            let mut b = gen::big(s);
            b.truncate(3000);
            b
        }
    };
    let mut op = pool_op(s, &b);
    if s.chance(1, 3) {
        op.kind = 0;
    }
    let want = no_panic("on its own", || perform(op, &b))?;
    let mut room = vec![0u8; b.len() + 64];
    let base = room.as_ptr() as usize % 32;
    for align in 0..32usize {
        if b.len() > 100 && align % 3 != 0 {
            continue;
        }
        let at = (align + 32 - base) % 32;
        room.fill([0u8, 0xff, 0x30, 0x80, 2][align % 5]);
        room[at..at + b.len()].copy_from_slice(&b);
        let view = &room[at..at + b.len()];
        let got = no_panic("elsewhere in memory", || perform(op, view))?;
        if got != want {
            return Err(format!(
                "{op:?} on {} gives, at an address that is {align} modulo 32: {}\nbut elsewhere: {}",
                hex(&b),
                clip(&got),
                clip(&want)
            ));
        }
    }
    cov.label_if(want.starts_with("used"), "placed: accepted");
    cov.label_if(!want.starts_with("used"), "placed: refused");
    if b.len() > 3 {
        cov.nontrivial(&(&b, op.kind), || format!("{op:?} at 32 alignments on {}", hex(&b)));
    }
    Ok(())
}

/// a parser value is used for several inputs, in any order
fn c21_reuse(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let kind = s.usize(REBUILT);
    let np = s.range(2, 6);
    // inputs that fit the parser: most of them start with the right element
    let tag = gen::other_tag(s);
    let wrap = *s.pick(&[Some((0u8, T_SEQ)), Some((0, T_SET)), Some((2, tag)), None]);
    let mut pool: Vec<Vec<u8>> = vec![];
    for _ in 0..np {
        let mut b = pool_input(s);
        if s.chance(2, 3) {
            let der = s.chance(1, 2);
            b = gen::one(s, if der { &gen::DER } else { &gen::BER });
            if let Some((c, t)) = wrap {
                b = gen::tlv(c, true, t, &b);
            }
        }
        pool.push(b);
    }
    let n = *s.pick(&[50usize, 2, 4, 16, 12]);
    let mut p = rebuilt(kind, tag, n);
    let ns = s.range(2, 12);
    let mut ok = 0;
    let mut bad = 0;
    for at in 0..ns {
        let b: &[u8] = &pool[s.usize(np)];
        // the whole, or a part of it that starts or ends elsewhere
        let b = match s.below(6) {
            0 => &b[..s.usize(b.len() + 1)],
            1 => &b[s.usize(b.len() + 1)..],
            _ => b,
        };
        let got = told_obj(b, p(b));
        let want = told_obj(b, rebuilt(kind, tag, n)(b));
        if want.starts_with("used") {
            ok += 1
        } else {
            bad += 1
        }
        if got != want {
            return Err(format!("parser {kind} (tag {tag}), application {at}, on {}: {}\na new parser gives {}", hex(b), clip(&got), clip(&want)));
        }
    }
    cov.label_if(ok > 0 && bad > 0, "reused after success and failure");
    if ok > 0 {
        cov.nontrivial(&(kind, &pool), || format!("parser {kind} applied {ns} times, inputs {}", pool.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" ")));
    }
    Ok(())
}

pub fn c21() -> Prop {
    Prop {
        id: "C21",
        rule: "histories: pools of valid, faulty, too deep, truncated and over-announcing inputs; sequences of operations from 26 kinds (parsers of every family, combinators alone and nested, conversion, printing, encoding, access, visiting), each repeated 1..60 times on copies at shifting addresses with varying octets behind them, on one thread or on three at once; oracle: the outcome (octets used, full description of the result, error) of the same operation alone on a fresh thread. Parser values of 32 kinds applied to many inputs, and up to 66000 times to one, are compared with newly built ones. Non-trivial: some operation succeeds and there is a history.",
        subs: vec![
            Sub { name: "history", size: Size::Random(20_000, 1_500_000), run: c21_history },
            Sub { name: "reuse", size: Size::Random(200_000, 8_000_000), run: c21_reuse },
            Sub { name: "worn", size: Size::Exhaustive(5 * REBUILT as u64, 5 * REBUILT as u64), run: c21_worn },
            Sub { name: "placement", size: Size::Random(120_000, 6_000_000), run: c21_place },
        ],
        assumptions: &[],
        debug_scale: 0.0,
    }
}

// ---------------------------------------------------------------- C22

/// change one thing somewhere in the tree
fn tweak(s: &mut Src, n: &mut N) {
    // walk down
    if s.chance(2, 3) {
        match &mut n.t {
            T::Seq(v) | T::Set(v) if !v.is_empty() => {
                let k = s.usize(v.len());
                return tweak(s, &mut v[k]);
            }
            T::Opt(Some(x)) | T::Tagged(_, _, x) => return tweak(s, x),
            _ => {}
        }
    }
    if s.chance(1, 4) {
        // header only
        let mut h = n.h.clone().unwrap_or(tree::dump_n(n).h);
        match s.below(4) {
            0 => h.class = (h.class + 1 + s.below(3) as u8) % 4,
            1 => h.tag ^= 1 << s.below(20),
            2 => h.cons = !h.cons,
            _ => h.len = *s.pick(&[Len::Indef, Len::Def(0), Len::Def(5), Len::Def(300)]),
        }
        n.h = Some(h);
        return;
    }
    fn octets(s: &mut Src, v: &mut Vec<u8>) {
        if v.is_empty() || s.chance(1, 6) {
            v.push(s.byte());
        } else if s.chance(1, 6) {
            v.pop();
        } else {
            let k = s.usize(v.len());
            v[k] ^= 1 << s.below(8);
        }
    }
    fn time(s: &mut Src, t: &mut Time) {
        match s.below(8) {
            0 => t.year = (t.year + 1) % 100,
            1 => t.month = t.month % 12 + 1,
            2 => t.day = t.day % 28 + 1,
            3 => t.hour = (t.hour + 1) % 24,
            4 => t.minute = (t.minute + 1) % 60,
            5 => t.second = (t.second + 1) % 60,
            6 => {
                t.ms = match t.ms {
                    None => Some(0),
                    Some(x) => Some((x + 1) % 1000),
                }
            }
            _ => {
                t.tz = match t.tz {
                    Tz::Z => Tz::Off(0, 0),
                    Tz::Off(h, m) => Tz::Off(h, (m + 1) % 60),
                    Tz::None => Tz::Z,
                }
            }
        }
    }
    // the content under the same header
    let keep = s.chance(1, 2).then(|| n.h.clone().unwrap_or(tree::dump_n(n).h));
    match &mut n.t {
        T::Eoc => n.t = T::Null,
        T::Null => n.t = T::Eoc,
        T::Bool(b) => *b = !*b,
        T::Int(v) | T::Octets(v) if s.chance(1, 5) => {
            let v = v.clone();
            n.t = if matches!(n.t, T::Int(_)) { T::Octets(v) } else { T::Int(v) };
        }
        T::Int(v) | T::Octets(v) | T::Oid(v) | T::RelOid(v) | T::Bmp(v) | T::Univ(v) | T::Unknown(_, v) => octets(s, v),
        T::Bits(u, v) => {
            if s.chance(1, 2) {
                *u = (*u + 1) % 8
            } else {
                octets(s, v)
            }
        }
        T::Enum(x) => *x ^= 1 << s.below(32),
        T::Text(t, x) => match s.below(3) {
            0 => *t = if *t == T_IA5 { T_UTF8 } else { T_IA5 },
            1 => x.push(*s.pick(&['a', ' ', '0'])),
            _ => {
                let k: String = x.chars().rev().collect();
                *x = k
            }
        },
        T::Seq(v) | T::Set(v) => {
            let k = s.usize(v.len().max(1));
            match s.below(4) {
                0 if !v.is_empty() => {
                    v.remove(k);
                }
                1 if v.len() > 1 => v.swap(0, k),
                2 => {
                    let v = v.clone();
                    n.t = if matches!(n.t, T::Seq(_)) { T::Set(v) } else { T::Seq(v) };
                }
                _ => v.push(N { h: None, t: tree::leaf(s) }),
            }
        }
        T::Utc(t) | T::Gen(t) if s.chance(1, 6) => {
            let t = t.clone();
            n.t = if matches!(n.t, T::Utc(_)) { T::Gen(t) } else { T::Utc(t) };
        }
        T::Utc(t) | T::Gen(t) => time(s, t),
        T::Opt(o) => {
            *o = match o.take() {
                Some(_) => None,
                None => Some(Box::new(N { h: None, t: tree::leaf(s) })),
            }
        }
        T::Tagged(c, t, _) => {
            if s.chance(1, 2) {
                *c = (*c + 1) % 4
            } else {
                *t ^= 1 << s.below(20)
            }
        }
    }
    if keep.is_some() {
        n.h = keep;
    }
}

fn same(a: &BerObject, b: &BerObject, expect: bool, why: &str) -> Result<(), String> {
    let show = |o: &BerObject| {
        let t = format!("{o:?}");
        clip(&t).to_string()
    };
    for (x, y, dir) in [(a, b, ""), (b, a, " (other way round)")] {
        let got = x == y;
        if got != expect || (x != y) == expect {
            return Err(format!("{why}{dir}: {} and {} compare {}", show(x), show(y), if got { "equal" } else { "unequal" }));
        }
    }
    let inner = {
        // contents on their own
        let (x, y) = (values(&D { h: dh(&a.header), c: dc(&a.content) }), values(&D { h: dh(&a.header), c: dc(&b.content) }));
        x == y
    };
    if (a.content == b.content) != inner || (b.content == a.content) != inner {
        return Err(format!("{why}: contents of {} and {} compare {}", show(a), show(b), if inner { "unequal" } else { "equal" }));
    }
    if let (BerObjectContent::BitString(_, x), BerObjectContent::BitString(_, y)) = (&a.content, &b.content) {
        if (x == y) != (x.data == y.data) {
            return Err(format!("{why}: bit strings {x:?} and {y:?} compare {}", x == y));
        }
    }
    Ok(())
}

fn expect_eq(a: &BerObject, b: &BerObject) -> bool {
    values(&dump(a)) == values(&dump(b))
}

fn copies(o: &BerObject) -> Result<(), String> {
    let c = o.clone();
    same(o, &c, true, "an object and its clone")?;
    same(o, o, true, "an object and itself")?;
    if dump(o) != dump(&c) {
        return Err(format!("clone differs: {}", diff(&dump(&c), &dump(o))));
    }
    let mut d = BerObject::from_obj(BerObjectContent::Null);
    d.clone_from(o);
    if dump(o) != dump(&d) {
        return Err(format!("clone_from differs: {}", diff(&dump(&d), &dump(o))));
    }
    Ok(())
}

fn c22_built(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let depth = s.usize(4);
    let a = tree::node(s, depth, 150, true);
    let mut b = a.clone();
    let k = *s.pick(&[1usize, 0, 1, 1, 2]);
    for _ in 0..k {
        tweak(s, &mut b);
    }
    if s.chance(1, 10) {
        b = tree::node(s, depth, 150, true);
    }
    let (x, y) = (tree::build(&a), tree::build(&b));
    copies(&x)?;
    let e = expect_eq(&x, &y);
    same(&x, &y, e, "built objects")?;
    cov.label(if e { "equal" } else { "unequal" });
    cov.nontrivial(&format!("{a:?}{b:?}"), || format!("{} {:?} / {:?}", if e { "equal" } else { "unequal" }, x.content, y.content));
    Ok(())
}

/// identifier octets in other than the shortest form somewhere: equality of those is left open
fn minimal_ids(b: &[u8], n: &Node) -> bool {
    let mut t = vec![];
    gen::put_tag(&mut t, n.h.class, n.h.cons, n.h.tag);
    b[n.h.start..n.h.tag_end] == t[..] && n.members().iter().all(|m| minimal_ids(b, m))
}

fn c22_parsed(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let der = s.chance(1, 3);
    let a = gen::one(s, if der { &gen::DER } else { &gen::BER });
    let mut b = a.clone();
    for _ in 0..s.usize(3) {
        if s.chance(2, 3) && !b.is_empty() {
            let k = s.usize(b.len());
            b[k] ^= 1 << s.below(8);
        } else {
            gen::mutate(s, &mut b);
        }
    }
    let (Ok(p), Ok(q)) = (ber(&a, 50), ber(&b, 50)) else { return Ok(()) };
    let (Ok((_, x)), Ok((_, y))) = (parse_ber(&a), parse_ber(&b)) else { return Ok(()) };
    copies(&x)?;
    if !minimal_ids(&a, &p.node) || !minimal_ids(&b, &q.node) {
        cov.label("long identifiers");
        return Ok(());
    }
    let e = expect_eq(&x, &y);
    same(&x, &y, e, "parsed objects")?;
    let cp = a.clone();
    if let Ok((_, z)) = parse_ber(&cp) {
        same(&x, &z, true, "parses of two copies of the same octets")?;
    }
    if let Ok((_, z)) = parse_der(&a) {
        same(&x, &z, true, "BER and DER parse of the same octets")?;
    }
    cov.label(if e { "equal" } else { "unequal" });
    cov.label_if(e && p.node.any_indef() != q.node.any_indef(), "equal in different length forms");
    if a != b {
        cov.nontrivial(&(&a, &b), || format!("{} {} / {}", if e { "equal" } else { "unequal" }, hex(&a), hex(&b)));
    }
    Ok(())
}

/// the same values in other length forms
fn recode(s: &mut Src, b: &[u8], n: &Node, out: &mut Vec<u8>) {
    let mut c = vec![];
    let list = matches!(n.val, Val::Seq(_) | Val::Set(_));
    if list {
        for m in n.members() {
            recode(s, b, m, &mut c);
        }
    } else {
        c.extend_from_slice(n.content(b));
    }
    out.extend_from_slice(&b[n.h.start..n.h.tag_end]);
    if list && s.chance(1, 2) {
        out.push(0x80);
        out.extend(c);
        out.extend([0, 0]);
        return;
    }
    // (an end-of-contents octet pair has one form)
    match if n.h.tag == 0 && n.h.class == 0 { 0 } else { s.below(3) } {
        0 | 1 => gen::put_len(out, c.len()),
        _ => gen::put_len_padded(out, c.len(), 1),
    }
    out.extend(c);
}

fn c22_forms(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let a = gen::one(s, &gen::BER);
    let Ok(p) = ber(&a, 50) else { return Ok(()) };
    if !minimal_ids(&a, &p.node) {
        return Ok(());
    }
    let mut b = vec![];
    recode(s, &a, &p.node, &mut b);
    let (Ok((_, x)), Ok((_, y))) = (parse_ber(&a), parse_ber(&b)) else { return Ok(()) };
    let e = expect_eq(&x, &y);
    same(&x, &y, e, "the same value in two length forms")?;
    cov.label_if(e, "equal");
    cov.label_if(p.node.members().len() > 1, "with members");
    if e && a != b {
        cov.nontrivial(&(&a, &b), || format!("{} / {}", hex(&a), hex(&b)));
    }
    Ok(())
}

pub fn c22() -> Prop {
    Prop {
        id: "C22",
        rule: "pairs of objects: built trees and the same tree with one or two changes (an octet, bit, field of a time, class, tag number, constructed bit, length, kind of content, member removed, added, swapped), parses of an encoding and of a mutation of it, parses of one value in several length forms, clones; == and != both ways, on objects, contents and bit strings, against equality of the descriptions read through the public fields. Non-trivial: two different sources compared.",
        subs: vec![
            Sub { name: "built", size: Size::Random(1_200_000, 20_000_000), run: c22_built },
            Sub { name: "parsed", size: Size::Random(1_200_000, 20_000_000), run: c22_parsed },
            Sub { name: "forms", size: Size::Random(600_000, 10_000_000), run: c22_forms },
        ],
        assumptions: &["equality between encodings with differing (non-minimal) identifier octets is left open; it is decided by asn1-rs"],
        debug_scale: 0.0,
    }
}

// ---------------------------------------------------------------- C23

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
/// processor time of this thread, in seconds
fn cpu() -> f64 {
    let mut t = Timespec { s: 0, ns: 0 };
    unsafe {
        clock_gettime(3, &mut t);
    }
    t.s as f64 + t.ns as f64 * 1e-9
}

struct Meter {
    /// octets of input
    n: usize,
    depth: usize,
    worst: f64,
    worst_what: String,
}

impl Meter {
    /// an operation on the input may take a fifth of a second plus 2 microseconds per octet, more
    /// for deep nesting (scanning indefinite lengths); the library takes a tenth of that at most
    fn allowed(&self) -> f64 {
        0.2 + self.n as f64 * 2e-6 * (1.0 + self.depth as f64 / 10.0)
    }
    fn time<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
        let t = cpu();
        let r = no_panic(what, f)?;
        let d = cpu() - t;
        if d / self.allowed() > self.worst {
            self.worst = d / self.allowed();
            self.worst_what = what.to_string();
        }
        if d > self.allowed() {
            return Err(format!("{what}: {d:.2} s of processor time for {} octets nested {} deep (allowed {:.2} s)", self.n, self.depth, self.allowed()));
        }
        Ok(r)
    }
}

/// everything that walks an object
fn walk(m: &mut Meter, o: &BerObject) -> Result<(), String> {
    let c = m.time("clone", || o.clone())?;
    let eq = m.time("==", || c == *o)?;
    if !eq {
        return Err("a clone compares unequal".into());
    }
    m.time("encode", || o.to_vec().map(|v| v.len()).ok())?;
    m.time("encode (header)", || cookie_factory::gen_simple(ber_encode_header(&o.header), Vec::new()).map(|v| v.len()).ok())?;
    m.time("encode (explicit)", || cookie_factory::gen_simple(ber_encode_tagged_explicit(Tag(3), Class::Private, o), Vec::new()).map(|v| v.len()).ok())?;
    m.time("encode (implicit)", || cookie_factory::gen_simple(ber_encode_tagged_implicit(Tag(3), Class::ContextSpecific, o), Vec::new()).map(|v| v.len()).ok())?;
    for (k, f) in [vec![], vec![PrettyPrinterFlag::Recursive], vec![PrettyPrinterFlag::ShowHeader], vec![PrettyPrinterFlag::Recursive, PrettyPrinterFlag::ShowHeader]].into_iter().enumerate() {
        m.time(&format!("print, flags {k}"), || format!("{:?}", PrettyBer::new(o, f, 0, 2)).len())?;
    }
    m.time("debug print", || format!("{o:?}").len())?;
    m.time("visit", || {
        let mut l = Log::default();
        Visit::run(&mut l, o);
        l.0.len()
    })?;
    let mut d = o.clone();
    {
        struct Seen(usize);
        impl<'a> VisitMut<'a> for Seen {
            fn visit_ber_mut(&mut self, _: &'_ mut BerObject<'a>, _: usize) {
                self.0 += 1;
            }
        }
        let p: *mut BerObject = &mut d;
        m.time("mutable visit", || {
            let mut v = Seen(0);
            // the trait wants a borrow as long as the object's own lifetime; nothing of it is kept
            VisitMut::run(&mut v, unsafe { &mut *p });
            v.0
        })?;
    }
    if d != *o {
        return Err("a visitor that changes nothing changed the object".into());
    }
    // equal up to the last member
    if let BerObjectContent::Sequence(v) | BerObjectContent::Set(v) = &mut d.content {
        if let Some(x) = v.last_mut() {
            x.header = Header::new(Class::Private, false, Tag(5), Length::Definite(0));
            if m.time("== late difference", || d == *o)? || m.time("== content, late difference", || d.content == o.content)? {
                return Err("objects whose last members differ compare equal".into());
            }
        }
    }
    m.time("header queries", || (o.class(), o.tag(), o.length(), o.is_constructed(), o.assert_tag(Tag(3)).is_ok(), o.assert_class(Class::Private).is_ok()))?;
    m.time("ref_iter", || o.ref_iter().map(|m| m.header.tag().0 as u64).sum::<u64>())?;
    m.time("index", || {
        let k = o.ref_iter().count();
        match &o.content {
            BerObjectContent::Sequence(_) | BerObjectContent::Set(_) => (0..k).map(|i| o[i].header.tag().0 as u64).sum::<u64>(),
            _ => 0,
        }
    })?;
    m.time("by value", || c.into_iter().map(|m| m.header.tag().0 as u64).sum::<u64>())?;
    m.time("accessors", || {
        (
            o.as_u64().is_ok(),
            o.as_i64().is_ok(),
            o.as_u32().is_ok(),
            o.as_i32().is_ok(),
            o.as_str().is_ok(),
            o.as_slice().is_ok(),
            o.as_bigint().is_ok(),
            o.as_biguint().is_ok(),
            o.as_bitstring().is_ok(),
            o.as_bitslice().is_ok(),
            o.as_sequence().is_ok(),
            o.as_oid().is_ok(),
            o.as_oid_val().is_ok(),
            o.as_set().is_ok(),
            o.as_optional().is_ok(),
            o.as_tagged().is_ok(),
            o.as_bool().is_ok(),
        )
    })?;
    m.time("bit slice", || o.as_bitslice().map(|b| b.iter().filter(|x| **x).count()).ok())?;
    m.time("bits one by one", || match &o.content {
        BerObjectContent::BitString(_, b) => (0..b.data.len()).filter(|i| b.is_set(*i * 8 + 3)).count(),
        _ => 0,
    })?;
    Ok(())
}

fn item(k: usize) -> &'static [u8] {
    const ITEMS: [&[u8]; 14] = [
        &[5, 0],
        &[2, 1, 7],
        &[1, 1, 0xff],
        &[0x30, 0],
        &[0x31, 0x80, 0, 0],
        &[0x80, 0],
        &[3, 2, 1, 0xfe],
        &[0x0c, 1, b'a'],
        &[4, 2, 1, 2],
        &[6, 2, 0x2a, 3],
        &[0x30, 3, 2, 1, 1],
        &[0xa3, 2, 5, 0],
        &[0x17, 13, b'2', b'0', b'0', b'1', b'0', b'1', b'0', b'0', b'0', b'0', b'0', b'0', b'Z'],
        &[0x9f, 0x81, 0x01, 1, 0],
    ];
    ITEMS[k % ITEMS.len()]
}
const ITEMS: usize = 14;
const OLD_SHAPES: usize = 4 * ITEMS + 14 * 2 + 12;
/// members that all differ, by kind, in sequences and sets, definite and indefinite
const DISTINCT: usize = 14;
/// long primitives made of a repeated pattern, in several variants
const PATTERNS: usize = 26;
const SHAPES: usize = OLD_SHAPES + 4 * DISTINCT + PATTERNS;

/// the i-th of many members that differ from each other
fn distinct(kind: usize, i: usize, of: usize, s: &mut Src, out: &mut Vec<u8>) {
    let be = (i as u32).to_be_bytes();
    match kind {
        0 => out.extend([2, 4, 0x40 | be[0], be[1], be[2], be[3]]),
        1 => {
            let be = ((of - i) as u32).to_be_bytes();
            out.extend([2, 4, 0x40 | be[0], be[1], be[2], be[3]])
        }
        2 => {
            let be = (s.u64() as u32 | 0x4000_0000).to_be_bytes();
            out.extend([2, 4, be[0] & 0x7f, be[1], be[2], be[3]])
        }
        3 => {
            gen::put_tag(out, 2, false, 31 + i as u32);
            out.push(0)
        }
        4 => {
            out.extend([6, 0, 0x2a]);
            let at = out.len();
            gen::put_base128(out, i as u128);
            out[at - 2] = (out.len() - at + 1) as u8;
        }
        5 => {
            let x = format!("{i:08}");
            out.extend([0x0c, 8]);
            out.extend(x.as_bytes())
        }
        6 => {
            // alike for long
            out.extend([4, 36]);
            out.extend([0x5a; 32]);
            out.extend(be)
        }
        7 => {
            let n = i % 120;
            out.extend([4, n as u8]);
            out.extend(vec![7; n])
        }
        8 => out.extend(gen::one(s, &gen::DER)),
        9 => out.extend([0x31, 6, 2, 4, 0x40 | be[0], be[1], be[2], be[3]]),
        10 => out.extend([1, 1, if i % 2 == 0 { 0 } else { 0xff }]),
        11 => out.extend([3, 5, 0, be[0], be[1], be[2], be[3]]),
        12 => {
            gen::put_tag(out, 1, true, i as u32 % 5000);
            out.extend([3, 2, 1, be[3]])
        }
        _ => {
            out.extend([0x18, 15]);
            let x = format!("{:04}{:02}{:02}{:02}{:02}{:02}Z", i % 10000, 1 + i % 12, 1 + i % 28, i % 24, i % 60, i % 60);
            out.extend(x.as_bytes())
        }
    }
}

fn pattern(k: usize, n: usize, s: &mut Src) -> Vec<u8> {
    let (tag, pat): (u32, &[u8]) = match k {
        0 => (T_OID, &[0x2a]),
        1 => (T_OID, &[0x81, 0x01]),
        2 => (T_OID, &[0x83, 0xff, 0xff, 0x7f]),
        3 => (T_RELOID, &[0x81, 0x80, 0x00]),
        4 => (T_RELOID, &[0]),
        5 => (T_UTF8, "\u{e9}".as_bytes()),
        6 => (T_UTF8, "a\u{20ac}".as_bytes()),
        7 => (T_UTF8, "\u{1f600}".as_bytes()),
        8 => (T_UTF8, &[0]),
        9 => (T_UTF8, b"\"\\\n"),
        10 => (T_BMP, &[0xd8, 0x3d, 0xde, 0x00]),
        11 => (T_BMP, &[0, 0]),
        12 => (T_BMP, &[0x20, 0xac]),
        13 => (T_UNIVERSAL, &[0, 1, 0xf6, 0]),
        14 => (T_UNIVERSAL, &[0, 0, 0, 0x41]),
        15 => (T_UNIVERSAL, &[0, 0, 0xd8, 0]),
        16 => (T_INT, &[0]),
        17 => (T_INT, &[0xff]),
        18 => (T_INT, &[0x7f, 0xff]),
        19 => (T_INT, &[0xff, 0]),
        20 => (T_BITS, &[0]),
        21 => (T_BITS, &[0, 0xff]),
        22 => (T_ENUM, &[0]),
        23 => (T_PRINTABLE, b"A '()+,-./:=?"),
        24 => (T_NUMERIC, b" 0"),
        _ => (T_GENERAL, &[0x7f, 0x1b]),
    };
    let mut c: Vec<u8> = pat.iter().copied().cycle().take((n / pat.len()) * pat.len()).collect();
    if s.chance(1, 3) {
        let l = c.len();
        c[l - 1] ^= 1;
    }
    gen::tlv(0, false, tag, &c)
}

/// an input of about n octets; the second value is its nesting
fn shape(k: usize, n: usize, s: &mut Src) -> (Vec<u8>, usize) {
    let cyc = |it: &[u8], n: usize| -> Vec<u8> { it.iter().copied().cycle().take((n / it.len()).max(1) * it.len()).collect() };
    if k < 4 * ITEMS {
        let c = cyc(item(k / 4), n);
        let tag = if s.chance(1, 2) { T_SEQ } else { T_SET };
        return match k % 4 {
            0 => (gen::tlv(0, true, tag, &c), 2),
            1 => {
                let mut b = vec![0x20 | tag as u8, 0x80];
                b.extend(c);
                b.extend([0, 0]);
                (b, 2)
            }
            // fails at the end
            2 => {
                let mut c = c;
                let bad: &[u8] = s.pick(&[&[2u8, 0][..], &[2, 5, 1], &[0x30, 4, 1, 1, 0], &[0x18, 1, b'x'], &[9, 1, 3], &[1, 2, 0, 0]]);
                c.extend_from_slice(bad);
                (gen::tlv(0, true, tag, &c), 2)
            }
            // never ends
            _ => {
                let mut b = vec![0x20 | tag as u8, 0x80];
                b.extend(c);
                (b, 2)
            }
        };
    }
    let k = k - 4 * ITEMS;
    if k < 28 {
        // one long primitive, valid or with something odd at the end
        let tags = [T_INT, T_BITS, T_OCTETS, T_UTF8, T_IA5, T_PRINTABLE, T_NUMERIC, T_BMP, T_UNIVERSAL, T_OID, T_RELOID, T_VISIBLE, T_T61, 77];
        let tag = tags[k / 2];
        let mut c = vec![
            match tag {
                T_INT => *s.pick(&[0x41u8, 0, 0xff]),
                T_BITS => 0,
                T_NUMERIC => b'4',
                T_OID | T_RELOID => *s.pick(&[0x2au8, 0x81]),
                T_BMP => 0x41,
                _ => b'a',
            };
            n & !1
        ];
        if k % 2 == 1 {
            let l = c.len();
            c[l - 1] = *s.pick(&[0u8, 0xff, 0x80, 0xc3]);
        }
        return (gen::tlv(if tag == 77 { 2 } else { 0 }, false, tag, &c), 1);
    }
    let k = k - 28;
    if k >= 12 {
        let k = k - 12;
        if k >= 4 * DISTINCT {
            return (pattern(k - 4 * DISTINCT, n, s), 1);
        }
        let mut c = vec![];
        let n = n / 2;
        let mut i = 0;
        while c.len() < n {
            distinct(k / 4, i, n, s, &mut c);
            i += 1;
        }
        let tag = if k % 2 == 0 { T_SEQ } else { T_SET };
        return if k % 4 < 2 {
            (gen::tlv(0, true, tag, &c), 4)
        } else {
            let mut b = vec![0x20 | tag as u8, 0x80];
            b.extend(c);
            b.extend([0, 0]);
            (b, 4)
        };
    }
    // nesting
    match k {
        0..=3 => {
            // levels, each with its share of items before and after
            let d = *s.pick(&[10usize, 25, 48]);
            let mut b = vec![];
            for i in 0..d {
                let it = item(s.usize(ITEMS));
                let mut c = cyc(it, n / d / 2);
                c.extend(&b);
                c.extend(cyc(it, n / d / 2));
                if k % 2 == 0 || (k == 3 && i % 2 == 0) {
                    b = gen::tlv(0, true, T_SEQ, &c);
                } else {
                    b = vec![0x31, 0x80];
                    b.extend(c);
                    b.extend([0, 0]);
                }
            }
            if k == 2 {
                let l = b.len();
                b.truncate(l - 1);
            }
            (b, d + 2)
        }
        4 | 5 => {
            // full binary tree
            let mut b = vec![5u8, 0];
            let mut d = 1;
            while b.len() * 2 + 8 < n && d < 45 {
                let mut c = b.clone();
                c.extend(&b);
                b = if k == 4 {
                    gen::tlv(0, true, T_SEQ, &c)
                } else {
                    let mut o = vec![0x30, 0x80];
                    o.extend(c);
                    o.extend([0, 0]);
                    o
                };
                d += 1;
            }
            (b, d)
        }
        6 => (vec![0x30, 0x80].repeat(n / 2), 50),
        7 => {
            let mut b = vec![0x30, 0x80].repeat(n / 4);
            b.extend(vec![0; n / 2]);
            (b, 50)
        }
        8 => {
            // explicit tags around explicit tags
            let mut b = vec![0xa0, 0x80].repeat(n / 4);
            b.extend(vec![0; n / 2]);
            (b, 50)
        }
        9 => {
            // many members, each nested to the limit
            let one = nest(s, 48, false, true, false);
            (gen::tlv(0, true, T_SEQ, &cyc(&one, n)), 50)
        }
        10 => {
            let one = nest(s, 48, false, true, false);
            let mut b = vec![0x30, 0x80];
            b.extend(cyc(&one, n));
            b.extend([0, 0]);
            (b, 50)
        }
        _ => {
            // every member announces more than there is
            let c = cyc(s.pick(&[&[0x30u8, 0x82, 0xff, 0xff][..], &[4, 0x7f], &[0x84, 0x83, 0xff, 0xff, 0xff]]), n);
            (gen::tlv(0, true, T_SEQ, &c), 2)
        }
    }
}

fn effort(k: usize, n: usize, s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let (b, depth) = shape(k, n, s);
    let b = &b[..];
    let mut m = Meter { n: b.len(), depth, worst: 0.0, worst_what: String::new() };
    let m = &mut m;
    let own = read_hdr(b, 0).map(|h| h.tag).unwrap_or(0);
    let t = Tag(own);
    let mut got = vec![];
    for der in [false, true] {
        let f = if der { "DER" } else { "BER" };
        got.push(m.time(&format!("{f} generic"), || generic(b, der))?.ok());
        m.time(&format!("{f} recursive"), || recursive(b, 50, der).is_ok())?;
        m.time(&format!("{f} with tag"), || with_tag(b, own, der).is_ok())?;
        if let Some(x) = typed(own) {
            m.time(&format!("{f} typed"), || if der { (x.der)(b) } else { (x.ber)(b) }.is_ok())?;
        }
        m.time(&format!("{f} header"), || header(b, der).is_ok())?;
        m.time(&format!("{f} slice"), || slice_of(b, own, der).is_ok())?;
        m.time(&format!("{f} container"), || container(b, der).is_ok())?;
        if let Ok((i, h)) = header(b, der) {
            m.time(&format!("{f} content"), || content_as(i, own, &h, 50, der).is_ok())?;
            m.time(&format!("{f} content as octets"), || content_as(i, T_OCTETS, &h, 50, der).is_ok())?;
        }
        let of = m.time(&format!("{f} of"), || {
            if der {
                (parse_der_sequence_of(parse_der)(b).is_ok(), parse_der_set_of(parse_der)(b).is_ok())
            } else {
                (parse_ber_sequence_of(parse_ber)(b).is_ok(), parse_ber_set_of(parse_ber)(b).is_ok())
            }
        })?;
        cov.label_if(of.0 || of.1, "repeated items");
        m.time(&format!("{f} of_v"), || {
            if der {
                (parse_der_sequence_of_v(parse_der_u32)(b).is_ok(), parse_der_set_of_v(parse_der_bool)(b).is_ok())
            } else {
                (parse_ber_sequence_of_v(parse_ber_u32)(b).is_ok(), parse_ber_set_of_v(parse_ber_bool)(b).is_ok())
            }
        })?;
        m.time(&format!("{f} defined"), || if der { parse_der_sequence_defined(pair)(b) } else { parse_ber_sequence_defined(pair)(b) }.is_ok())?;
        m.time(&format!("{f} implicit"), || {
            if der {
                parse_der_tagged_implicit(t, parse_der_content(Tag(4)))(b)
            } else {
                parse_ber_tagged_implicit(t, parse_ber_content(Tag(4)))(b)
            }
            .is_ok()
        })?;
        m.time(&format!("{f} explicit"), || if der { parse_der_tagged_explicit(t, parse_der)(b) } else { parse_ber_tagged_explicit(t, parse_ber)(b) }.is_ok())?;
        m.time(&format!("{f} optional"), || if der { parse_ber_optional(parse_der)(b) } else { parse_ber_optional(parse_ber)(b) }.is_ok())?;
    }
    m.time("raw element and conversion", || match parse_ber_any(b) {
        Ok((_, a)) => BerObject::try_from(a).is_ok(),
        Err(_) => false,
    })?;
    m.time("parse_ber_any_r", || parse_ber_any_r(b, 50).is_ok())?;
    let ok = got.iter().any(|x| x.is_some());
    for (_, o) in got.iter().flatten().take(1) {
        walk(m, o)?;
    }
    if std::env::var_os("HARNESS_EFFORT").is_some() {
        eprintln!("shape {k} {} octets depth {depth}: at most {:.1}% of the allowance ({})", b.len(), m.worst * 100.0, m.worst_what);
    }
    cov.label(if ok { "accepted" } else { "refused" });
    cov.nontrivial(&(k, b.len(), depth), || format!("shape {k}: {} octets, {}...; at most {:.1}% of the allowance ({})", b.len(), hex(&b[..b.len().min(24)]), m.worst * 100.0, m.worst_what));
    Ok(())
}

fn c23_shapes(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let idx = s.u64();
    let mut q = Src::from_seed(mix(idx, 0x23));
    let k = idx as usize % SHAPES;
    let n = [400_000usize, 1_000_000, 2_000_000][(idx as usize / SHAPES) % 3];
    effort(k, n, &mut q, cov)
}

fn c23_random(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let k = s.usize(SHAPES);
    let n = s.range(50_000, 500_000);
    effort(k, n, s, cov)
}

pub fn c23() -> Prop {
    Prop {
        id: "C23",
        rule: "inputs of 50 kB to 2 MB: containers of 14 kinds of small items (definite, indefinite, faulty at the end, unterminated), containers of 14 kinds of members that all differ (ascending, descending, random, alike for long, growing), long primitives of 14 types and of 26 repeated patterns, wide nesting of 10..48 levels in both length forms, full binary trees, unterminated and endless nesting, members that announce too much; every parser family, combinator, conversion, and on the object clone, ==, encoding, printing, visiting, iterating, indexing, accessors are timed one by one in thread processor time against 0.2 s + 2 us * octets * (1 + nesting / 10); a case that does not end is confirmed in a process of its own. Non-trivial: every case.",
        subs: vec![
            Sub { name: "shapes", size: Size::Exhaustive(SHAPES as u64, 3 * SHAPES as u64), run: c23_shapes },
            Sub { name: "random", size: Size::Random(100, 3000), run: c23_random },
        ],
        assumptions: &["processor time is measured, not counted: the allowance is far above what the unchanged code takes, and a quadratic algorithm exceeds it"],
        debug_scale: 0.0,
    }
}

// ---------------------------------------------------------------- C24

/// what goes wrong, and when, over all writers of a thread
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// the k-th non-empty write fails
    Error(u64),
    /// the k-th non-empty write takes only part of the octets (possibly none)
    Short(u64, u64),
    /// no writer takes more than this many octets in all
    Full(usize),
    /// the k-th non-empty write is interrupted once
    Interrupted(u64),
}

thread_local! {
    static PLAN: std::cell::Cell<(Fault, u64, bool)> = const { std::cell::Cell::new((Fault::None, 0, false)) };
}

#[derive(Default)]
struct Sink {
    buf: Vec<u8>,
}
impl AsRef<[u8]> for Sink {
    fn as_ref(&self) -> &[u8] {
        &self.buf
    }
}
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let (f, n, hit) = PLAN.with(|p| p.get());
        if b.is_empty() {
            return Ok(0);
        }
        PLAN.with(|p| p.set((f, n + 1, hit)));
        let strike = || PLAN.with(|p| p.set((f, n + 1, true)));
        let take = match f {
            Fault::Error(k) if k == n => {
                strike();
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "refused"));
            }
            Fault::Interrupted(k) if k == n => {
                strike();
                return Err(std::io::ErrorKind::Interrupted.into());
            }
            Fault::Short(k, part) if k == n => {
                strike();
                (part % b.len() as u64) as usize
            }
            Fault::Full(max) if self.buf.len() + b.len() > max => {
                strike();
                max.saturating_sub(self.buf.len())
            }
            _ => b.len(),
        };
        self.buf.extend_from_slice(&b[..take]);
        Ok(take)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// encode through one of the functions into `w`: the octets written and the reported count
fn encode_with<W: std::io::Write + Default + AsRef<[u8]>>(how: usize, o: &BerObject, w: W) -> Option<(W, u64)> {
    use cookie_factory::gen;
    match how {
        0 => gen(ber_encode_object(o), w),
        1 => gen(ber_encode_object_raw(&o.header, &o.content), w),
        2 => gen(ber_encode_tagged_explicit(Tag(70), Class::Application, o), w),
        3 => gen(ber_encode_tagged_implicit(Tag(5), Class::ContextSpecific, o), w),
        _ => gen(ber_encode_header(&o.header), w),
    }
    .ok()
}
const HOWS: usize = 5;

fn c24_writer(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let depth = s.usize(5);
    let node = tree::node(s, depth, 60, true);
    let bytes = gen::one(s, &gen::BER);
    let parsed = s.chance(1, 2);
    let o = match parse_ber(&bytes) {
        Ok((_, o)) if parsed => o,
        _ => tree::build(&node),
    };
    let how = s.usize(HOWS);
    let show = |o: &BerObject| {
        let t = format!("{o:?}");
        clip(&t).to_string()
    };
    // the encoding in memory is the reference
    let Some((want, count)) = no_panic("encoding", || encode_with(how, &o, Vec::new()))? else {
        cov.label("not encodable");
        return Ok(());
    };
    if count != want.len() as u64 {
        return Err(format!("function {how}: reports {count} octets for an encoding of {}: {}", want.len(), show(&o)));
    }
    // into a writer that already holds something
    let pre = s.usize(6);
    let before = s.bytes(pre);
    match no_panic("encoding", || encode_with(how, &o, before.clone()))? {
        Some((v, c)) if v[..pre.min(v.len())] == before[..] && v[pre..] == want[..] && c == want.len() as u64 => {}
        r => return Err(format!("function {how}: behind {} gives {:?}, expected the octets {} added: {}", hex(&before), r.map(|x| hex(&x.0)), hex(&want), show(&o))),
    }
    // a writer of another type
    PLAN.with(|p| p.set((Fault::None, 0, false)));
    let writes = match no_panic("encoding", || encode_with(how, &o, Sink::default()))? {
        Some((w, _)) if w.buf == want => PLAN.with(|p| p.get()).1,
        r => return Err(format!("function {how}: another writer receives {:?}, not {}: {}", r.map(|x| hex(&x.0.buf)), hex(&want), show(&o))),
    };
    if writes == 0 {
        return Ok(());
    }
    // one fault, at any write
    let k = s.below(writes);
    let fault = match s.below(4) {
        0 => Fault::Error(k),
        1 => Fault::Short(k, s.below(40)),
        2 => Fault::Interrupted(k),
        _ => Fault::Full(s.usize(want.len() + 2)),
    };
    PLAN.with(|p| p.set((fault, 0, false)));
    let r = no_panic("encoding", || encode_with(how, &o, Sink::default()));
    let hit = PLAN.with(|p| p.replace((Fault::None, 0, false))).2;
    let r = r?;
    cov.label(match fault {
        Fault::Error(_) => "a write fails",
        Fault::Short(..) => "a short write",
        Fault::Interrupted(_) => "an interrupted write",
        _ => "limited room",
    });
    if let Some((w, c)) = &r {
        if w.buf != want {
            return Err(format!("function {how}: with {fault:?} reports success but wrote {}, not {}: {}", hex(&w.buf), hex(&want), show(&o)));
        }
        if *c != want.len() as u64 {
            return Err(format!("function {how}: with {fault:?} reports {c} octets for {}: {}", want.len(), show(&o)));
        }
        cov.label_if(hit, "fault overcome");
    } else if !hit {
        return Err(format!("function {how}: with {fault:?}, which did not occur, encoding fails: {}", show(&o)));
    }
    if hit {
        cov.nontrivial(&(how, &want, k), || format!("function {how}, {fault:?}, encoding {}", hex(&want)));
    }
    Ok(())
}

/// several objects, one after the other, into one writer; generators applied again
fn c24_stream(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let n = s.range(1, 5);
    let nodes: Vec<N> = (0..n)
        .map(|_| {
            let d = s.usize(3);
            tree::node(s, d, 60, true)
        })
        .collect();
    let objs: Vec<BerObject> = nodes.iter().map(tree::build).collect();
    let how: Vec<usize> = (0..n).map(|_| s.usize(HOWS)).collect();
    let mut w: Option<Vec<u8>> = Some(vec![]);
    let mut want = vec![];
    for (o, h) in objs.iter().zip(&how) {
        let Some((one, _)) = no_panic("encoding", || encode_with(*h, o, Vec::new()))? else { return Ok(()) };
        want.extend(one);
        w = match w.take() {
            Some(v) => no_panic("encoding", || encode_with(*h, o, v))?.map(|x| x.0),
            None => None,
        };
    }
    if w.as_deref() != Some(&want[..]) {
        return Err(format!("{n} encodings (functions {how:?}) in one writer give {:?}, one by one {}", w.map(|v| hex(&v)), hex(&want)));
    }
    // a generator is a function: applying it again gives the same
    let o = &objs[0];
    let (f, g) = (ber_encode_object(o), ber_encode_tagged_explicit(Tag(1), Class::Private, o));
    let once = no_panic("encoding", || (cookie_factory::gen_simple(&f, Vec::new()).ok(), cookie_factory::gen_simple(&g, Vec::new()).ok()))?;
    let again = no_panic("encoding", || (cookie_factory::gen_simple(&f, Vec::new()).ok(), cookie_factory::gen_simple(&g, Vec::new()).ok()))?;
    if once != again || once.0 != o.to_vec().ok() {
        return Err(format!("a generator applied again gives {again:?}, first {once:?}"));
    }
    cov.label_if(n > 1, "several objects in one writer");
    if want.len() > 4 {
        cov.nontrivial(&want, || format!("{n} objects, functions {how:?}: {}", hex(&want)));
    }
    Ok(())
}

/// text output with room for a number of octets
struct Page {
    text: String,
    room: usize,
}
impl std::fmt::Write for Page {
    fn write_str(&mut self, x: &str) -> std::fmt::Result {
        if self.text.len() + x.len() > self.room {
            return Err(std::fmt::Error);
        }
        self.text.push_str(x);
        Ok(())
    }
}

fn c24_print(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    use std::fmt::Write;
    let depth = s.usize(4);
    let node = tree::node(s, depth, 60, true);
    let o = tree::build(&node);
    let mut flags = vec![];
    if s.chance(3, 4) {
        flags.push(PrettyPrinterFlag::Recursive);
    }
    if s.chance(1, 2) {
        flags.push(PrettyPrinterFlag::ShowHeader);
    }
    let (a, b) = (s.usize(5), s.usize(5));
    let p = PrettyBer::new(&o, flags, a, b);
    let whole = no_panic("printing", || format!("{p:?}"))?;
    let room = match s.below(4) {
        0 => whole.len() + s.usize(3),
        1 => whole.len().saturating_sub(1 + s.usize(4)),
        _ => s.usize(whole.len() + 1),
    };
    let mut page = Page { text: String::new(), room };
    let r = no_panic("printing", || write!(page, "{p:?}"))?;
    if r.is_ok() != (room >= whole.len()) {
        return Err(format!("printing {} octets into room for {room} reports {r:?}; written: {:?}", whole.len(), clip(&page.text)));
    }
    if r.is_ok() && page.text != whole || !whole.starts_with(&page.text) {
        return Err(format!("printing into room for {room} octets wrote {:?}, not the start of {:?}", clip(&page.text), clip(&whole)));
    }
    cov.label(if r.is_ok() { "printed" } else { "printing cut short" });
    if r.is_err() {
        cov.nontrivial(&(&whole, room), || format!("room for {room} of {} octets of {:?}", whole.len(), clip(&whole)));
    }
    Ok(())
}

pub fn c24() -> Prop {
    Prop {
        id: "C24",
        rule: "objects parsed from generated elements or built with the constructors, through each encoding function, into a vector, a vector that already holds octets, a user-defined writer, and such a writer with one fault at a generated point (a write that fails, takes part of the octets, is interrupted, or room for n octets only; the plan covers the temporary writers the encoder creates); several encodings into one writer, generators applied twice; pretty-printing into a text sink with room for n octets. Oracle: the encoding in memory; success must mean exactly these octets and this count, an error only with a fault. Non-trivial: the fault was met, or more than 4 octets were written.",
        subs: vec![
            Sub { name: "faults", size: Size::Random(2_000_000, 40_000_000), run: c24_writer },
            Sub { name: "print", size: Size::Random(600_000, 12_000_000), run: c24_print },
            Sub { name: "stream", size: Size::Random(800_000, 16_000_000), run: c24_stream },
        ],
        assumptions: &["what the octets of the encoding are is C11's subject"],
        debug_scale: 0.0,
    }
}
