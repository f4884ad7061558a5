//! C12, C13: combinators
use crate::cmp::*;
use crate::driver::Prop;
use crate::engine::*;
use crate::gen::{self, hex};
use crate::parsers::*;
use crate::refm::{self, *};
use der_parser::asn1_rs::Tag;
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::{BerError, BerResult};
use der_parser::nom::error::{ErrorKind, ParseError};
use der_parser::nom::{Err as NErr, IResult, Needed};
use std::cell::RefCell;

/// a caller-defined error type
#[derive(Clone, Debug, PartialEq)]
pub enum UE {
    Ber(BerError),
    Nom(ErrorKind),
    Mine(u64),
}
impl<'a> ParseError<&'a [u8]> for UE {
    fn from_error_kind(_: &'a [u8], k: ErrorKind) -> Self {
        UE::Nom(k)
    }
    fn append(_: &'a [u8], _: ErrorKind, other: Self) -> Self {
        other
    }
}
impl From<BerError> for UE {
    fn from(e: BerError) -> Self {
        UE::Ber(e)
    }
}

/// item parsers are pure functions of the input, described by data
#[derive(Clone, Debug)]
struct Item {
    kind: usize,
    width: usize,
    bad: u8,
}
const KINDS: usize = 11;

fn bytes_of<'a, T, E>(i: &'a [u8], r: BerResult<'a, T>) -> IResult<&'a [u8], Vec<u8>, E>
where
    E: From<BerError>,
{
    match r {
        Ok((rem, _)) => Ok((rem, i[..i.len() - rem.len()].to_vec())),
        Err(NErr::Error(e)) => Err(NErr::Error(e.into())),
        Err(NErr::Failure(e)) => Err(NErr::Failure(e.into())),
        Err(NErr::Incomplete(n)) => Err(NErr::Incomplete(n)),
    }
}

fn item<'a>(it: &Item, i: &'a [u8]) -> IResult<&'a [u8], Vec<u8>, UE> {
    let w = it.width;
    let first = i.first().copied().unwrap_or(0);
    let fixed = |w: usize| {
        if i.len() < w {
            Err(NErr::Error(UE::Nom(ErrorKind::Eof)))
        } else {
            Ok((&i[w..], i[..w].to_vec()))
        }
    };
    match it.kind {
        0 => {
            if i.len() < w {
                Err(NErr::Incomplete(Needed::new(w - i.len())))
            } else {
                Ok((&i[w..], i[..w].to_vec()))
            }
        }
        1 => fixed(w),
        2 if first == it.bad => Err(NErr::Error(UE::Mine(first as u64 + 1000 * i.len() as u64))),
        3 if first == it.bad => Err(NErr::Failure(UE::Mine(first as u64 + 1000 * i.len() as u64))),
        2 | 3 => fixed(1 + (first as usize) % 3),
        4 => bytes_of(i, parse_ber(i)),
        5 => bytes_of(i, parse_der(i)),
        6 if first == it.bad => Ok((i, vec![])),
        7 if first == it.bad => Err(NErr::Incomplete(Needed::Unknown)),
        6 | 7 => fixed(w.min(i.len()).max(1)),
        8 => Ok((&i[i.len()..], i.to_vec())),
        9 => bytes_of(i, parse_ber_integer(i)),
        _ => bytes_of(i, parse_der_octetstring(i)),
    }
}

fn obj_item<'a>(it: &Item, i: &'a [u8]) -> BerResult<'a> {
    let first = i.first().copied().unwrap_or(0);
    match it.kind % 8 {
        0 => parse_ber(i),
        1 => parse_der(i),
        2 if first == it.bad => Err(NErr::Error(BerError::BerValueError)),
        3 if first == it.bad => Err(NErr::Failure(BerError::InvalidLength)),
        4 => parse_ber_integer(i),
        5 if first == it.bad => Ok((i, BerObject::from_int_slice(&i[..0]))),
        6 if first == it.bad => Err(NErr::Incomplete(Needed::new(3))),
        7 => match i {
            [a, rest @ ..] if *a != it.bad => Ok((rest, BerObject::from_int_slice(&i[..1]))),
            _ => Err(NErr::Error(BerError::InvalidTag)),
        },
        _ => parse_ber(i),
    }
}

enum Want<T, E> {
    Ok(T),
    /// fails with this error of the item parser
    Own(E),
    /// fails (not with 'incomplete')
    Fail,
}

fn split<'a, T, E: Clone>(c: &'a [u8], f: &dyn Fn(&'a [u8]) -> IResult<&'a [u8], T, E>) -> Want<Vec<T>, E> {
    let mut v = vec![];
    let mut rem = c;
    while !rem.is_empty() {
        match f(rem) {
            Ok((r, x)) => {
                if r.len() >= rem.len() {
                    return Want::Fail;
                }
                v.push(x);
                rem = r;
            }
            Err(NErr::Error(e)) | Err(NErr::Failure(e)) => return Want::Own(e),
            Err(NErr::Incomplete(_)) => return Want::Fail,
        }
    }
    Want::Ok(v)
}

/// where the first element of b lies; None when no parser of the family may accept it
fn extent(b: &[u8], der: bool) -> Option<(Hdr, usize, usize)> {
    let h = read_hdr(b, 0).ok()?;
    if der && h.len == Len::Indef {
        return None;
    }
    let (c1, e) = frame(b, &h).ok()?;
    Some((h, c1, e))
}

fn compare<'a, T: PartialEq + std::fmt::Debug, E: PartialEq + std::fmt::Debug>(
    what: &str,
    b: &[u8],
    got: &IResult<&'a [u8], T, E>,
    want: Want<T, E>,
    end: usize,
    either: bool,
) -> Result<(), String> {
    match (got, want) {
        (Ok((rem, v)), Want::Ok(w)) => {
            check_rem(b, rem, end).map_err(|e| format!("{what} on {}: {e}", hex(b)))?;
            if *v != w {
                return Err(format!("{what} on {}: {}", hex(b), diff(v, &w)));
            }
            Ok(())
        }
        (Err(_), Want::Ok(_)) if either => Ok(()),
        (Err(e), Want::Ok(_)) => Err(format!("{what} refuses {}: {e:?}", hex(b))),
        (Ok((rem, v)), Want::Own(e)) => {
            Err(format!("{what} accepts {} ({} bytes left, {v:?}), an item fails with {e:?}", hex(b), rem.len()))
        }
        (Ok((rem, v)), Want::Fail) => Err(format!("{what} accepts {} ({} bytes left, {v:?})", hex(b), rem.len())),
        (Err(NErr::Error(g)), Want::Own(e)) | (Err(NErr::Failure(g)), Want::Own(e)) => {
            if *g == e || either {
                Ok(())
            } else {
                Err(format!("{what} on {}: error {g:?}, the item parser's is {e:?}", hex(b)))
            }
        }
        (Err(NErr::Incomplete(_)), Want::Own(e)) => Err(format!("{what} on {}: incomplete, the item parser's error is {e:?}", hex(b))),
        (Err(NErr::Incomplete(_)), Want::Fail) => Err(format!("{what} on {}: incomplete, although all of the element is there", hex(b))),
        (Err(_), Want::Fail) => Ok(()),
    }
}

/// a container for the combinators: bytes
fn wrapped(s: &mut Src, kind_is_element: bool, bad: u8, want_tag: u32) -> Vec<u8> {
    let mut c = vec![];
    if kind_is_element {
        let cfg = if s.chance(1, 2) { gen::DER } else { gen::BER };
        let cfg = gen::Cfg { fault: if s.chance(1, 4) { 80 } else { 0 }, ..cfg };
        let n = match s.weighted(&[100, 1]) {
            0 => s.usize(5),
            _ => s.lit(500) as usize,
        };
        for _ in 0..n {
            match s.weighted(&[2, 3, 2]) {
                0 => gen::element(s, &cfg, 3, &mut 5, &mut c),
                1 => {
                    let k = gen::int_content(s, true);
                    c.extend(gen::tlv(0, false, T_INT, &k))
                }
                _ => {
                    let n = s.usize(6);
                    let k = s.bytes(n);
                    c.extend(gen::tlv(0, false, T_OCTETS, &k))
                }
            }
        }
        if s.chance(1, 8) {
            gen::mutate(s, &mut c);
        }
    } else {
        let n = match s.weighted(&[60, 1]) {
            0 => s.usize(14),
            _ => s.lit(1500) as usize,
        };
        for _ in 0..n {
            let x = match s.weighted(&[6, 1, 2]) {
                0 => s.below(8) as u8 + 1,
                1 => bad,
                _ => s.byte(),
            };
            c.push(x);
        }
    }
    let tag = match s.weighted(&[10, 1, 1]) {
        0 => want_tag,
        1 => if want_tag == T_SEQ { T_SET } else { T_SEQ },
        _ => gen::other_tag(s),
    };
    let class = if s.chance(1, 12) { s.below(4) as u8 } else { 0 };
    let cons = !s.chance(1, 20);
    let mut out = vec![];
    let cfg = gen::Cfg { der: s.chance(1, 2), fault: if s.chance(1, 8) { 300 } else { 0 }, ..gen::BER };
    gen::emit(s, &cfg, &mut out, class, cons, tag, &c, true);
    if s.chance(1, 16) {
        let k = s.usize(out.len().max(1));
        out.truncate(k);
    } else {
        let t = gen::trailing(s);
        out.extend(t);
    }
    out
}

fn spec(s: &mut Src) -> Item {
    Item { kind: s.usize(KINDS), width: s.range(1, 4), bad: *s.pick(&[5u8, 0, 2, 4, 0x30, 0xff, 7]) }
}

fn runaway<T>() -> Result<T, NErr<UE>> {
    Err(NErr::Failure(UE::Mine(u64::MAX)))
}

/// the 'of' combinators with any item and error type; one instance over a history of inputs
fn c12_of_v(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let it = spec(s);
    let is_set = s.chance(1, 2);
    let der = s.chance(1, 2);
    let tag = if is_set { T_SET } else { T_SEQ };
    let elem = [4, 5, 9, 10].contains(&it.kind);
    let n = s.range(1, 5);
    let inputs: Vec<Vec<u8>> = (0..n).map(|_| wrapped(s, elem, it.bad, tag)).collect();
    let order: Vec<usize> = (0..n + s.usize(3)).map(|k| if k < n { k } else { s.usize(n) }).collect();
    let calls = RefCell::new(0usize);
    fn counted<'a>(calls: &RefCell<usize>, it: &Item, i: &'a [u8]) -> IResult<&'a [u8], Vec<u8>, UE> {
        *calls.borrow_mut() += 1;
        if *calls.borrow() > 100_000 {
            return runaway();
        }
        item(it, i)
    }
    let name = format!("parse_{}_{}_of_v({it:?})", if der { "der" } else { "ber" }, if is_set { "set" } else { "sequence" });
    macro_rules! drive {
        ($c:ident) => {{
            let mut p = $c(|i| counted(&calls, &it, i));
            let name = &name;
            let it = &it;
            for &k in &order {
                let b: &[u8] = &inputs[k];
                *calls.borrow_mut() = 0;
                let got = p(b);
                judge_of(name, b, &got, tag, der, &|i| item(it, i))?;
                if *calls.borrow() > b.len() + 2 {
                    return Err(format!("{name} calls the item parser {} times on {}", calls.borrow(), hex(b)));
                }
            }
        }};
    }
    match (der, is_set) {
        (false, false) => drive!(parse_ber_sequence_of_v),
        (false, true) => drive!(parse_ber_set_of_v),
        (true, false) => drive!(parse_der_sequence_of_v),
        (true, true) => drive!(parse_der_set_of_v),
    }
    cov_of(&inputs, tag, der, cov, &name);
    Ok(())
}

fn cov_of(inputs: &[Vec<u8>], tag: u32, der: bool, cov: &mut Cov, name: &str) {
    let mut good = 0;
    for b in inputs {
        if let Some((h, c1, e)) = extent(b, der) {
            if h.tag == tag {
                cov.label_if(h.len == Len::Indef, "indefinite length");
                cov.label_if(e < b.len(), "trailing bytes");
                cov.label_if(c1 == h.body, "empty content");
                good += usize::from(c1 > h.body);
            } else {
                cov.label("wrong tag");
            }
        } else {
            cov.label("no complete element");
        }
    }
    cov.label_if(inputs.len() > 1, "history of several inputs");
    if good > 0 {
        cov.nontrivial(&(name, inputs), || format!("{name} on {}", inputs.iter().map(|b| hex(b)).collect::<Vec<_>>().join(", ")));
    }
}

fn judge_of<'a, T: PartialEq + std::fmt::Debug, E: PartialEq + std::fmt::Debug + Clone>(
    name: &str,
    b: &'a [u8],
    got: &IResult<&'a [u8], Vec<T>, E>,
    tag: u32,
    der: bool,
    it: &dyn Fn(&'a [u8]) -> IResult<&'a [u8], T, E>,
) -> Result<(), String> {
    match extent(b, der) {
        Some((h, c1, e)) if h.tag == tag => {
            let w = split(&b[h.body..c1], it);
            // only the universal constructed form is pinned down; other classes may be refused
            let either = h.class != 0 || !h.cons || !h.minimal_tag;
            compare(name, b, got, w, e, either)
        }
        _ => match got {
            Ok(_) => Err(format!("{name} accepts {}", hex(b))),
            Err(_) => Ok(()),
        },
    }
}

/// the object variants
fn c12_of(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let it = spec(s);
    let is_set = s.chance(1, 2);
    let der = s.chance(1, 2);
    let tag = if is_set { T_SET } else { T_SEQ };
    let n = s.range(1, 4);
    let elem = it.kind % 8 != 7 || s.chance(1, 2);
    let inputs: Vec<Vec<u8>> = (0..n).map(|_| wrapped(s, elem, it.bad, tag)).collect();
    let order: Vec<usize> = (0..n + s.usize(3)).map(|k| if k < n { k } else { s.usize(n) }).collect();
    let name = format!("parse_{}_{}_of({it:?})", if der { "der" } else { "ber" }, if is_set { "set" } else { "sequence" });
    macro_rules! drive {
        ($c:ident) => {{
            let it = &it;
            let mut p = $c(|i| obj_item(it, i));
            for &k in &order {
                let b: &[u8] = &inputs[k];
                let got = p(b);
                // the container object: right kind, right tag, members as items
                let got: IResult<&[u8], Vec<D>, BerError> = match got {
                    Ok((rem, o)) => {
                        let h = dh(&o.header);
                        if h.class != 0 || !h.cons || h.tag != tag {
                            return Err(format!("{name} on {}: container header {h:?}", hex(b)));
                        }
                        match &o.content {
                            BerObjectContent::Sequence(v) if !is_set => Ok((rem, v.iter().map(dump).collect())),
                            BerObjectContent::Set(v) if is_set => Ok((rem, v.iter().map(dump).collect())),
                            c => return Err(format!("{name} on {}: returns {c:?}", hex(b))),
                        }
                    }
                    Err(e) => Err(e),
                };
                judge_of(&name, b, &got, tag, der, &|i| obj_item(it, i).map(|(r, o)| (r, dump(&o))))?;
            }
        }};
    }
    match (der, is_set) {
        (false, false) => drive!(parse_ber_sequence_of),
        (false, true) => drive!(parse_ber_set_of),
        (true, false) => drive!(parse_der_sequence_of),
        (true, true) => drive!(parse_der_set_of),
    }
    cov_of(&inputs, tag, der, cov, &name);
    Ok(())
}

/// the script of a content callback
#[derive(Clone, Debug)]
struct Script {
    /// octets consumed, as a fraction of the content
    eat: usize,
    fail: usize,
    bad: u8,
}

fn script_out<'a>(sc: &Script, c: &'a [u8]) -> IResult<&'a [u8], Vec<u8>, UE> {
    let trig = c.first().copied().unwrap_or(0) == sc.bad;
    match sc.fail {
        1 if trig => Err(NErr::Error(UE::Mine(c.len() as u64))),
        2 if trig => Err(NErr::Failure(UE::Mine(c.len() as u64 + 7))),
        3 if trig => Err(NErr::Incomplete(Needed::new(9))),
        _ => {
            let k = (c.len() * sc.eat) / 4;
            Ok((&c[k..], c[..k].to_vec()))
        }
    }
}

fn exact<'a, T: PartialEq + std::fmt::Debug, E: PartialEq + std::fmt::Debug>(
    what: &str,
    b: &[u8],
    got: &IResult<&'a [u8], T, E>,
    want: IResult<&'a [u8], T, E>,
    end: usize,
) -> Result<(), String> {
    match (got, &want) {
        (Ok((rem, v)), Ok((_, w))) => {
            check_rem(b, rem, end).map_err(|e| format!("{what} on {}: {e}", hex(b)))?;
            if v != w {
                return Err(format!("{what} on {}: {}", hex(b), diff(v, w)));
            }
            Ok(())
        }
        (Err(g), Err(w)) => {
            if g != w {
                return Err(format!("{what} on {}: error {g:?}, the callback's is {w:?}", hex(b)));
            }
            Ok(())
        }
        (g, w) => Err(format!("{what} on {}: {}", hex(b), diff(g, w))),
    }
}

/// defined_g / container: callback sees exactly header and content, result passed through
fn c12_defined(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let sc = Script { eat: s.usize(5), fail: s.usize(4), bad: *s.pick(&[2u8, 4, 1, 0, 5]) };
    let which = s.usize(3); // container, sequence, set
    let der = s.chance(1, 2);
    let tag = if which == 2 { T_SET } else { T_SEQ };
    let elem = s.chance(1, 2);
    let n = s.range(1, 4);
    let inputs: Vec<Vec<u8>> = (0..n).map(|_| wrapped(s, elem, sc.bad, tag)).collect();
    let order: Vec<usize> = (0..n + s.usize(3)).map(|k| if k < n { k } else { s.usize(n) }).collect();
    let seen: RefCell<Vec<(usize, usize, DH)>> = RefCell::new(vec![]);
    let fam = if der { "der" } else { "ber" };
    let name = format!("parse_{fam}_{}({sc:?})", ["container", "sequence_defined_g", "set_defined_g"][which]);
    // a closure returning a borrow of its argument needs a named function signature
    fn fix<F>(f: F) -> F
    where
        F: for<'a> FnMut(&'a [u8], Header<'a>) -> IResult<&'a [u8], Vec<u8>, UE>,
    {
        f
    }
    macro_rules! go {
        ($c:ident) => {{
            let (sc, seen) = (&sc, &seen);
            let mut p = $c(fix(|c, h| {
                seen.borrow_mut().push((c.as_ptr() as usize, c.len(), DH { raw: None, ..dh(&h) }));
                script_out(sc, c)
            }));
            for &k in &order {
                let b: &[u8] = &inputs[k];
                seen.borrow_mut().clear();
                let got = p(b);
                let calls = seen.borrow().clone();
                judge_defined(&name, b, &got, &calls, tag, which == 0, der, &|c| script_out(sc, c))?;
            }
        }};
    }
    match (der, which) {
        (false, 0) => go!(parse_ber_container),
        (false, 1) => go!(parse_ber_sequence_defined_g),
        (false, _) => go!(parse_ber_set_defined_g),
        (true, 0) => go!(parse_der_container),
        (true, 1) => go!(parse_der_sequence_defined_g),
        (true, _) => go!(parse_der_set_defined_g),
    }
    cov_of(&inputs, tag, der, cov, &name);
    Ok(())
}

fn judge_defined<'a, T: PartialEq + std::fmt::Debug, E: PartialEq + std::fmt::Debug>(
    name: &str,
    b: &'a [u8],
    got: &IResult<&'a [u8], T, E>,
    calls: &[(usize, usize, DH)],
    tag: u32,
    any_tag: bool,
    der: bool,
    cb: &dyn Fn(&'a [u8]) -> IResult<&'a [u8], T, E>,
) -> Result<(), String> {
    match extent(b, der) {
        Some((h, c1, e)) if any_tag || h.tag == tag => {
            if calls.is_empty() && got.is_err() && (!h.minimal_tag || (!any_tag && (h.class != 0 || !h.cons))) {
                return Ok(());
            }
            if calls.len() != 1 {
                return Err(format!("{name} on {}: callback called {} times ({got:?})", hex(b), calls.len()));
            }
            let (a, l, hd) = &calls[0];
            if *l != c1 - h.body || (*l > 0 && *a != b[h.body..].as_ptr() as usize) {
                return Err(format!("{name} on {}: callback given {l} octets, the content is {}", hex(b), hex(&b[h.body..c1])));
            }
            let want = DH { class: h.class, cons: h.cons, tag: h.tag, len: h.len, raw: None };
            if *hd != want {
                return Err(format!("{name} on {}: callback given header {hd:?}, expected {want:?}", hex(b)));
            }
            exact(name, b, got, cb(&b[h.body..c1]), e)
        }
        _ => {
            if got.is_ok() {
                return Err(format!("{name} accepts {}", hex(b)));
            }
            if !calls.is_empty() {
                return Err(format!("{name} on {}: callback called although the element is not acceptable", hex(b)));
            }
            Ok(())
        }
    }
}

/// 'defined' returning objects
fn c12_defined_obj(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let fail = s.usize(4);
    let take = s.usize(4);
    let is_set = s.chance(1, 2);
    let der = s.chance(1, 2);
    let tag = if is_set { T_SET } else { T_SEQ };
    let n = s.range(1, 4);
    let inputs: Vec<Vec<u8>> = (0..n).map(|_| wrapped(s, true, 5, tag)).collect();
    let fam = if der { "der" } else { "ber" };
    let name = format!("parse_{fam}_{}_defined(first {take} members)", if is_set { "set" } else { "sequence" });
    fn cb<'a>(c: &'a [u8], take: usize, fail: usize) -> BerResult<'a, Vec<BerObject<'a>>> {
        let mut v = vec![];
        let mut rem = c;
        for _ in 0..take {
            if rem.is_empty() {
                break;
            }
            if fail == 1 && rem.len() % 5 == 3 {
                return Err(NErr::Failure(BerError::BerTypeError));
            }
            let (r, o) = parse_ber(rem)?;
            v.push(o);
            rem = r;
        }
        Ok((rem, v))
    }
    macro_rules! go {
        ($c:ident) => {{
            let mut p = $c(|c| cb(c, take, fail));
            for b in &inputs {
                let b: &[u8] = b;
                let got = match p(b) {
                    Ok((rem, o)) => {
                        let h = dh(&o.header);
                        if h.class != 0 || !h.cons || h.tag != tag {
                            return Err(format!("{name} on {}: container header {h:?}", hex(b)));
                        }
                        match &o.content {
                            BerObjectContent::Sequence(v) if !is_set => Ok((rem, v.iter().map(dump).collect::<Vec<_>>())),
                            BerObjectContent::Set(v) if is_set => Ok((rem, v.iter().map(dump).collect())),
                            c => return Err(format!("{name} on {}: returns {c:?}", hex(b))),
                        }
                    }
                    Err(e) => Err(e),
                };
                match extent(b, der) {
                    Some((h, c1, e)) if h.tag == tag => {
                        let w = cb(&b[h.body..c1], take, fail).map(|(r, v)| (r, v.iter().map(dump).collect()));
                        if !(got.is_err() && (h.class != 0 || !h.cons || !h.minimal_tag)) {
                            exact(&name, b, &got, w, e)?;
                        }
                    }
                    _ => {
                        if got.is_ok() {
                            return Err(format!("{name} accepts {}", hex(b)));
                        }
                    }
                }
            }
        }};
    }
    match (der, is_set) {
        (false, false) => go!(parse_ber_sequence_defined),
        (false, true) => go!(parse_ber_set_defined),
        (true, false) => go!(parse_der_sequence_defined),
        (true, true) => go!(parse_der_set_defined),
    }
    cov_of(&inputs, tag, der, cov, &name);
    Ok(())
}

/// nested: a sequence of sets of integers
fn c12_nested(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let der = s.chance(1, 2);
    let mut outer = vec![];
    let mut expect: Vec<Vec<u32>> = vec![];
    let mut ok = true;
    for _ in 0..s.usize(5) {
        let mut inner = vec![];
        let mut e = vec![];
        for _ in 0..s.usize(4) {
            let v = match s.weighted(&[12, 1]) {
                0 => *s.pick(&[0u32, 1, 127, 128, 255, 256, 65535, u32::MAX, 1 << 31]),
                _ => s.lit(1 << 32) as u32,
            };
            e.push(v);
            let c = gen::int_octets(v as i128);
            if s.chance(1, 30) {
                ok = false;
                inner.extend(gen::tlv(0, false, T_OCTETS, &c));
            } else {
                inner.extend(gen::tlv(0, false, T_INT, &c));
            }
        }
        if s.chance(1, 25) {
            ok = false;
            inner.push(2);
        }
        if !der && s.chance(1, 3) {
            outer.extend([0x31, 0x80]);
            outer.extend(&inner);
            outer.extend([0, 0]);
        } else {
            outer.extend(gen::tlv(0, true, T_SET, &inner));
        }
        expect.push(e);
    }
    let mut b = gen::tlv(0, true, T_SEQ, &outer);
    let end = b.len();
    let t = gen::trailing(s);
    b.extend(t);
    let b: &[u8] = &b;
    type R<'a> = IResult<&'a [u8], Vec<Vec<u32>>, BerError>;
    let rs: [(&str, R); 2] = if der {
        [
            ("der nested", parse_der_sequence_of_v(parse_der_set_of_v(parse_der_u32))(b)),
            ("der nested (per item)", parse_der_sequence_of_v(|i| parse_der_set_of_v(parse_der_u32)(i))(b)),
        ]
    } else {
        [
            ("ber nested", parse_ber_sequence_of_v(parse_ber_set_of_v(parse_ber_u32))(b)),
            ("ber nested (per item)", parse_ber_sequence_of_v(|i| parse_ber_set_of_v(parse_ber_u32)(i))(b)),
        ]
    };
    for (what, r) in rs {
        match (&r, ok) {
            (Ok((rem, v)), true) => {
                check_rem(b, rem, end).map_err(|e| format!("{what} on {}: {e}", hex(b)))?;
                if *v != expect {
                    return Err(format!("{what} on {}: {}", hex(b), diff(v, &expect)));
                }
            }
            (Err(_), false) => {}
            (r, _) => return Err(format!("{what} on {}: {r:?}, expected {}", hex(b), if ok { "success" } else { "failure" })),
        }
    }
    cov.label_if(ok, "nested accepted");
    cov.label_if(!ok, "nested with a bad item");
    cov.nontrivial(b, || format!("nested {}", hex(b)));
    Ok(())
}

fn c12_codes(thorough: bool) -> Vec<u64> {
    gen::large_huge_codes(thorough).iter().flat_map(|c| (0..3).map(move |k| c * 3 + k)).collect()
}

/// long contents and many members, every combinator
fn c12_large(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let idx = s.u64();
    c12_long(gen::large(idx / 3), idx % 3, cov)
}
fn c12_big(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let b = gen::big(s);
    c12_long(b, s.below(3), cov)
}
fn c12_long(mut b: Vec<u8>, cut: u64, cov: &mut Cov) -> Result<(), String> {
    match cut {
        // one octet missing at the end, or one too many
        1 => {
            b.pop();
        }
        2 => b.push(2),
        _ => {}
    }
    let b: &[u8] = &b;
    type Sp = (usize, usize);
    fn span<'a>(i: &'a [u8]) -> IResult<&'a [u8], Sp, UE> {
        match parse_ber(i) {
            Ok((r, _)) => Ok((r, (i.as_ptr() as usize, i.len() - r.len()))),
            Err(NErr::Incomplete(n)) => Err(NErr::Incomplete(n)),
            Err(NErr::Error(e) | NErr::Failure(e)) => Err(NErr::Error(UE::Ber(e))),
        }
    }
    for der in [false, true] {
        for tag in [T_SEQ, T_SET] {
            let got = match (der, tag == T_SET) {
                (false, false) => parse_ber_sequence_of_v(span)(b),
                (false, true) => parse_ber_set_of_v(span)(b),
                (true, false) => parse_der_sequence_of_v(span)(b),
                (true, true) => parse_der_set_of_v(span)(b),
            };
            judge_of("of_v", b, &got, tag, der, &|i| span(i))?;
            let got = match (der, tag == T_SET) {
                (false, false) => parse_ber_sequence_of(parse_ber)(b),
                (false, true) => parse_ber_set_of(parse_ber)(b),
                (true, false) => parse_der_sequence_of(parse_ber)(b),
                (true, true) => parse_der_set_of(parse_ber)(b),
            };
            let got = got.map(|(r, o)| match o.content {
                BerObjectContent::Sequence(v) | BerObjectContent::Set(v) => (r, v.iter().map(dump).collect::<Vec<_>>()),
                _ => (r, vec![]),
            });
            judge_of("of", b, &got, tag, der, &|i| parse_ber(i).map(|(r, o)| (r, dump(&o))))?;
            let seen: RefCell<Vec<(usize, usize, DH)>> = RefCell::new(vec![]);
            fn half<'a>(c: &'a [u8]) -> IResult<&'a [u8], Sp, UE> {
                Ok((&c[c.len() / 2..], (c.as_ptr() as usize, c.len())))
            }
            fn fix<F>(f: F) -> F
            where
                F: for<'a> FnMut(&'a [u8], Header<'a>) -> IResult<&'a [u8], Sp, UE>,
            {
                f
            }
            let cb = || {
                fix(|c, h| {
                    seen.borrow_mut().push((c.as_ptr() as usize, c.len(), DH { raw: None, ..dh(&h) }));
                    half(c)
                })
            };
            let got = match (der, tag == T_SET) {
                (false, false) => parse_ber_sequence_defined_g(cb())(b),
                (false, true) => parse_ber_set_defined_g(cb())(b),
                (true, false) => parse_der_sequence_defined_g(cb())(b),
                (true, true) => parse_der_set_defined_g(cb())(b),
            };
            let calls = seen.borrow().clone();
            judge_defined("defined_g", b, &got, &calls, tag, false, der, &|c| half(c))?;
            seen.borrow_mut().clear();
            let got = if der { parse_der_container(cb())(b) } else { parse_ber_container(cb())(b) };
            let calls = seen.borrow().clone();
            judge_defined("container", b, &got, &calls, tag, true, der, &|c| half(c))?;
        }
    }
    cov.label("large");
    cov.nontrivial(b, || hex(b));
    Ok(())
}

pub fn c12() -> Prop {
    Prop {
        id: "C12",
        rule: "histories of 1..7 applications of one combinator instance to generated containers (right and wrong tags, definite/padded/indefinite lengths, truncations, trailing bytes) with item parsers drawn from 11 kinds (elements, fixed width, self-delimiting, failing with Error/Failure/Incomplete on a trigger, consuming nothing), custom and library error types; callback scripts for the defined/container forms; nested combinators. Non-trivial: some input of the history is a complete element with the right tag and non-empty content.",
        subs: vec![
            Sub { name: "of_v", size: Size::Random(800_000, 6_000_000), run: c12_of_v },
            Sub { name: "of", size: Size::Random(800_000, 6_000_000), run: c12_of },
            Sub { name: "defined_g", size: Size::Random(800_000, 6_000_000), run: c12_defined },
            Sub { name: "defined", size: Size::Random(600_000, 4_000_000), run: c12_defined_obj },
            Sub { name: "nested", size: Size::Random(400_000, 3_000_000), run: c12_nested },
            Sub { name: "large", size: Size::List(c12_codes), run: c12_large },
            Sub { name: "big", size: Size::Random(2_000, 40_000), run: c12_big },
        ],
        assumptions: &[
            "item parsers are pure functions of their input",
            "an element of another class or primitive form that carries the tag number may be accepted or refused",
        ],
        debug_scale: 0.0,
    }
}

// ---------------------------------------------------------------- C13

/// an element and the tag number to ask for
fn tagged_input(s: &mut Src, der: bool) -> (Vec<u8>, u32, u32) {
    let tag = gen::other_tag(s);
    let class = *s.pick(&[2u8, 2, 2, 1, 3, 0]);
    let cfg = if der || s.chance(1, 3) { gen::DER } else { gen::BER };
    let cfg = gen::Cfg { fault: if s.chance(1, 5) { 80 } else { 0 }, ..cfg };
    let (cons, c, ty) = if s.chance(1, 2) {
        // content made of elements
        let mut c = vec![];
        for _ in 0..s.usize(4) {
            gen::element(s, &cfg, 3, &mut 5, &mut c);
        }
        (!s.chance(1, 10), c, *s.pick(&[T_SEQ, T_SET, T_OCTETS]))
    } else {
        let ty = *s.pick(&gen::LEAVES);
        let bad = s.chance(1, 8);
        (s.chance(1, 12), gen::leaf_content(s, ty, &cfg, bad), ty)
    };
    let mut out = vec![];
    gen::emit(s, &cfg, &mut out, class, cons, tag, &c, true);
    if s.chance(1, 20) {
        gen::mutate(s, &mut out);
    }
    if s.chance(1, 20) {
        let k = s.usize(out.len().max(1));
        out.truncate(k);
    }
    let t = gen::trailing(s);
    out.extend(t);
    let ask = if s.chance(1, 8) { gen::other_tag(s) } else { tag };
    let ty = if s.chance(1, 6) { TYPED[s.usize(TYPED.len())].tag } else { ty };
    (out, ask, ty)
}

fn inner<'a>(k: usize, i: &'a [u8]) -> BerResult<'a> {
    match k {
        0 => parse_ber(i),
        1 => parse_der(i),
        2 => parse_ber_integer(i),
        3 => parse_der_octetstring(i),
        4 => Err(NErr::Error(BerError::BerValueError)),
        5 => Err(NErr::Failure(BerError::InvalidLength)),
        6 => parse_ber_sequence_of(parse_ber)(i),
        _ => match i {
            [] => Err(NErr::Error(BerError::InvalidTag)),
            _ => Ok((&i[1..], BerObject::from_int_slice(&i[..1]))),
        },
    }
}

fn inner_u<'a>(k: usize, i: &'a [u8], h: &DH) -> IResult<&'a [u8], (Vec<u8>, u32, u8), UE> {
    match k % 4 {
        0 => Ok((&i[i.len()..], (i.to_vec(), h.tag, h.class))),
        1 => Err(NErr::Error(UE::Mine(i.len() as u64))),
        2 => Err(NErr::Failure(UE::Mine(i.len() as u64))),
        _ => Ok((&i[i.len() / 2..], (i[..i.len() / 2].to_vec(), h.tag, h.class))),
    }
}

fn shallow(d: &D) -> D {
    // the length recorded for an implicitly tagged indefinite element is not fixed by the property
    let mut d = no_raw(d);
    d.h.len = Len::Indef;
    d
}

fn err_same(a: &NomErr, b: &NomErr) -> bool {
    match (a, b) {
        (NErr::Incomplete(_), _) | (_, NErr::Incomplete(_)) => true,
        (NErr::Error(x) | NErr::Failure(x), NErr::Error(y) | NErr::Failure(y)) => x == y,
    }
}

fn explicit_want<'a>(b: &'a [u8], ask: u32, der: bool, k: usize) -> Result<(usize, D), Option<NomErr>> {
    let (h, c1, e) = extent(b, der).ok_or(None)?;
    if h.class == 0 || h.tag != ask || !h.cons {
        return Err(None);
    }
    let (_, o) = inner(k, &b[h.body..c1]).map_err(Some)?;
    let hd = DH { class: h.class, cons: h.cons, tag: h.tag, len: h.len, raw: None };
    Ok((e, D { h: hd, c: DC::Tagged(h.class, h.tag, Box::new(no_raw(&dump(&o)))) }))
}

fn judge_obj(what: &str, b: &[u8], got: &BerResult, want: &Result<(usize, D), Option<NomErr>>, lenient: bool) -> Result<(), String> {
    match (got, want) {
        (Ok((rem, o)), Ok((e, d))) => {
            check_rem(b, rem, *e).map_err(|m| format!("{what} on {}: {m}", hex(b)))?;
            let g = no_raw(&dump(o));
            if g != *d {
                return Err(format!("{what} on {}: {}", hex(b), diff(&g, d)));
            }
            Ok(())
        }
        (Err(g), Err(Some(e))) => {
            if err_same(g, e) {
                Ok(())
            } else {
                Err(format!("{what} on {}: error {g:?}, the inner parser's is {e:?}", hex(b)))
            }
        }
        (Err(_), Err(None)) => Ok(()),
        (Err(_), Ok(_)) if lenient => Ok(()),
        (Err(e), Ok(_)) => Err(format!("{what} refuses {}: {e:?}", hex(b))),
        (Ok((_, o)), Err(e)) => Err(format!("{what} accepts {} as {:?} (inner error {e:?})", hex(b), o.content)),
    }
}

fn judge_opt(what: &str, b: &[u8], got: &BerResult, want: &Result<(usize, D), Option<NomErr>>, lenient: bool) -> Result<(), String> {
    match got {
        Err(e) => Err(format!("{what} fails on {}: {e:?}", hex(b))),
        Ok((rem, o)) => match (&o.content, want) {
            (BerObjectContent::Optional(None), Err(_)) => {
                check_rem(b, rem, 0).map_err(|_| format!("{what} on {}: absent, but the input is advanced", hex(b)))
            }
            (BerObjectContent::Optional(None), Ok(_)) if lenient => Ok(()),
            (BerObjectContent::Optional(None), Ok(_)) => Err(format!("{what} on {}: absent, but the element is acceptable", hex(b))),
            (BerObjectContent::Optional(Some(x)), Ok((e, d))) => {
                check_rem(b, rem, *e).map_err(|m| format!("{what} on {}: {m}", hex(b)))?;
                let g = no_raw(&dump(x));
                if g != *d {
                    return Err(format!("{what} on {}: {}", hex(b), diff(&g, d)));
                }
                Ok(())
            }
            (c, w) => Err(format!("{what} on {}: returns {c:?}, expected {w:?}", hex(b))),
        },
    }
}

fn label13(b: &[u8], ask: u32, der: bool, accepted: bool, cov: &mut Cov) {
    if let Some((h, ..)) = extent(b, der) {
        cov.label_if(h.len == Len::Indef, "indefinite length");
        cov.label_if(h.class == 0, "universal class");
        cov.label_if(h.class == 1 || h.class == 3, "application/private class");
        cov.label_if(!h.cons, "primitive");
        cov.label_if(h.tag != ask, "other tag number");
        cov.label_if(h.tag >= 31, "high tag number");
    }
    if accepted {
        cov.label("accepted");
        cov.nontrivial(&(b, ask), || format!("{} [{}]", hex(b), ask));
    }
}

fn c13_explicit(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let der = s.chance(1, 2);
    let k = *s.pick(&[0usize, 0, 1, 1, 2, 3, 4, 5, 6, 7]);
    let (b, ask, _) = tagged_input(s, der);
    let (b2, _, _) = tagged_input(s, der);
    let fam = if der { "der" } else { "ber" };
    let lenient = |b: &[u8]| read_hdr(b, 0).map_or(false, |h| !h.minimal_tag);
    let mut ok = false;
    {
        let what = format!("parse_{fam}_tagged_explicit({ask}, inner {k})");
        macro_rules! go {
            ($c:ident) => {{
                let mut p = $c(Tag(ask), |i| inner(k, i));
                for b in [&b, &b2, &b] {
                    let w = explicit_want(b, ask, der, k);
                    ok |= w.is_ok();
                    judge_obj(&what, b, &p(b), &w, lenient(b))?;
                }
                let mut p = $c(ask, |i| inner(k, i));
                judge_obj(&what, &b, &p(&b), &explicit_want(&b, ask, der, k), lenient(&b))?;
            }};
        }
        if der {
            go!(parse_der_tagged_explicit)
        } else {
            go!(parse_ber_tagged_explicit)
        }
    }
    // generic output and error type
    fn fix<F>(f: F) -> F
    where
        F: for<'a> Fn(&'a [u8], Header<'a>) -> IResult<&'a [u8], (Vec<u8>, u32, u8), UE>,
    {
        f
    }
    {
        let seen: RefCell<Vec<(usize, usize, DH)>> = RefCell::new(vec![]);
        let what = format!("parse_{fam}_tagged_explicit_g({ask})");
        let cb = fix(|i, h| {
            let d = DH { raw: None, ..dh(&h) };
            seen.borrow_mut().push((i.as_ptr() as usize, i.len(), d.clone()));
            inner_u(k, i, &d)
        });
        let got = if der { parse_der_tagged_explicit_g(Tag(ask), cb)(&b) } else { parse_ber_tagged_explicit_g(Tag(ask), cb)(&b) };
        let calls = seen.borrow().clone();
        match extent(&b, der) {
            Some((h, c1, e)) if h.class != 0 && h.tag == ask && h.cons => {
                let hd = DH { class: h.class, cons: h.cons, tag: h.tag, len: h.len, raw: None };
                if !(calls.is_empty() && got.is_err() && !h.minimal_tag) {
                    if calls.len() != 1 || calls[0].1 != c1 - h.body || (c1 > h.body && calls[0].0 != b[h.body..].as_ptr() as usize) || calls[0].2 != hd {
                        return Err(format!("{what} on {}: inner parser given {calls:?}, expected content {} of {hd:?}", hex(&b), hex(&b[h.body..c1])));
                    }
                    exact(&what, &b, &got, inner_u(k, &b[h.body..c1], &hd), e)?;
                }
            }
            _ => {
                if got.is_ok() || !calls.is_empty() {
                    return Err(format!("{what} on {}: {got:?} with {} calls of the inner parser", hex(&b), calls.len()));
                }
            }
        }
    }
    // optional form
    {
        let what = format!("parse_{fam}_explicit_optional({ask}, inner {k})");
        fn fixo<F: for<'a> Fn(&'a [u8]) -> BerResult<'a>>(f: F) -> F {
            f
        }
        let f = fixo(|i| inner(k, i));
        let got = if der { parse_der_explicit_optional(&b, Tag(ask), f) } else { parse_ber_explicit_optional(&b, Tag(ask), f) };
        judge_opt(&what, &b, &got, &explicit_want(&b, ask, der, k), lenient(&b))?;
    }
    label13(&b, ask, der, ok, cov);
    Ok(())
}

fn implicit_want(b: &[u8], ask: u32, ty: u32, der: bool) -> (Result<(usize, D), ()>, bool) {
    let Some((h, c1, e)) = extent(b, der) else { return (Err(()), false) };
    if h.tag != ask {
        return (Err(()), false);
    }
    let c = &b[h.body..c1];
    let b2 = gen::tlv(h.class, h.cons, h.tag, c);
    let indef = h.len == Len::Indef;
    match refm::as_type(&b2, ty, der) {
        Ok(p) => {
            let hd = DH { class: h.class, cons: h.cons, tag: h.tag, len: Len::Indef, raw: None };
            let d = shallow(&D { h: hd, c: model_content(&b2, &p.node, ty) });
            // a type that is always primitive has no indefinite form
            let either = p.lenient || !h.minimal_tag || (indef && ty != T_SEQ && ty != T_SET);
            (Ok((e, d)), either)
        }
        Err(_) => (Err(()), false),
    }
}

fn plain_unknown(d: D) -> D {
    let mut d = d;
    if let DC::Unknown(h, _) = &mut d.c {
        *h = DH { class: 0, cons: false, tag: 0, len: Len::Indef, raw: None };
    }
    d
}

fn c13_implicit(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let der = s.chance(1, 2);
    let (b, ask, ty) = tagged_input(s, der);
    let (b2, _, _) = tagged_input(s, der);
    let fam = if der { "der" } else { "ber" };
    let mut ok = false;
    let mut judge = |what: &str, b: &[u8], got: &BerResult| -> Result<(), String> {
        let (w, either) = implicit_want(b, ask, ty, der);
        match (got, w) {
            (Ok((rem, o)), Ok((e, d))) => {
                ok = true;
                check_rem(b, rem, e).map_err(|m| format!("{what} on {}: {m}", hex(b)))?;
                let (g, d) = (plain_unknown(shallow(&dump(o))), plain_unknown(d));
                if g != d {
                    return Err(format!("{what} on {}: {}", hex(b), diff(&g, &d)));
                }
                if let Length::Definite(l) = o.header.length() {
                    if let Some((h, c1, _)) = extent(b, der) {
                        if l != c1 - h.body {
                            return Err(format!("{what} on {}: header length {l}, content of {} octets", hex(b), c1 - h.body));
                        }
                    }
                }
                Ok(())
            }
            (Err(_), Err(())) => Ok(()),
            (Err(_), Ok(_)) if either => Ok(()),
            (Err(e), Ok(_)) => Err(format!("{what} refuses {}: {e:?}", hex(b))),
            (Ok((_, o)), Err(())) => Err(format!("{what} accepts {} as {:?}", hex(b), o.content)),
        }
    };
    let what = format!("parse_{fam}_tagged_implicit({ask}, type {ty})");
    let w2 = format!("parse_{fam}_implicit({ask}, type {ty})");
    let w3 = format!("parse_{fam}_tagged_implicit_g({ask}, type {ty})");
    let seen: RefCell<Vec<(usize, usize, DH, usize)>> = RefCell::new(vec![]);
    macro_rules! go {
        ($t:ident, $i:ident, $g:ident, $c:ident, $c2:ident) => {{
            let mut p = $t(Tag(ask), $c(Tag(ty)));
            for b in [&b, &b2, &b] {
                judge(&what, b, &p(b))?;
            }
            judge(&what, &b, &$t(ask, $c(Tag(ty)))(&b))?;
            judge(&w2, &b, &$i(&b, ask, $c(Tag(ty))))?;
            judge(&w2, &b, &$i(&b, Tag(ask), $c(Tag(ty))))?;
            let mut p = $g(Tag(ask), |i, h: Header, d| -> BerResult {
                seen.borrow_mut().push((i.as_ptr() as usize, i.len(), dh(&h), d));
                let keep = h.clone();
                let (rem, c) = $c2(Tag(ty))(i, h, d)?;
                Ok((rem, BerObject::from_header_and_content(keep, c)))
            });
            judge(&w3, &b, &p(&b))?;
        }};
    }
    if der {
        go!(parse_der_tagged_implicit, parse_der_implicit, parse_der_tagged_implicit_g, parse_der_content, parse_der_content2)
    } else {
        go!(parse_ber_tagged_implicit, parse_ber_implicit, parse_ber_tagged_implicit_g, parse_ber_content, parse_ber_content2)
    }
    let calls = seen.borrow().clone();
    match extent(&b, der) {
        Some((h, c1, _)) if h.tag == ask => {
            if h.minimal_tag || !calls.is_empty() {
                let good = calls.len() == 1
                    && calls[0].1 == c1 - h.body
                    && (calls[0].1 == 0 || calls[0].0 == b[h.body..].as_ptr() as usize)
                    && (calls[0].2.class, calls[0].2.cons, calls[0].2.tag) == (h.class, h.cons, h.tag)
                    && calls[0].3 > 0;
                if !good {
                    return Err(format!("{w3} on {}: content parser given {calls:?}", hex(&b)));
                }
            }
        }
        _ => {
            if !calls.is_empty() {
                return Err(format!("{w3} on {}: content parser called for an unacceptable element", hex(&b)));
            }
        }
    }
    label13(&b, ask, der, ok, cov);
    Ok(())
}

fn c13_optional(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let k = s.usize(10);
    let der = s.chance(1, 2);
    let inputs: Vec<Vec<u8>> = (0..s.range(1, 3)).map(|_| gen::input(s, der)).collect();
    let mut p = parse_ber_optional(|i| match k {
        8 => parse_ber_tagged_explicit(2, parse_ber)(i),
        9 => parse_der_u32(i).map(|(r, v)| (r, BerObject::from_obj(BerObjectContent::Enum(v as u64)))),
        _ => inner(k, i),
    });
    for b in &inputs {
        let b: &[u8] = b;
        let direct = match k {
            8 => parse_ber_tagged_explicit(2, parse_ber)(b),
            9 => parse_der_u32(b).map(|(r, v)| (r, BerObject::from_obj(BerObjectContent::Enum(v as u64)))),
            _ => inner(k, b),
        };
        let what = format!("parse_ber_optional(inner {k})");
        match (p(b), direct) {
            (Err(e), _) => return Err(format!("{what} fails on {}: {e:?}", hex(b))),
            (Ok((rem, o)), Ok((r, x))) => {
                check_rem(b, rem, b.len() - r.len()).map_err(|m| format!("{what} on {}: {m}", hex(b)))?;
                match &o.content {
                    BerObjectContent::Optional(Some(y)) if dump(y) == dump(&x) => {}
                    c => return Err(format!("{what} on {}: returns {c:?}, the inner object is {:?}", hex(b), x.content)),
                }
                cov.label("present");
                cov.nontrivial(&(b, k), || format!("optional inner {k} on {}", hex(b)));
            }
            (Ok((rem, o)), Err(e)) => {
                check_rem(b, rem, 0).map_err(|_| format!("{what} on {}: absent, but the input is advanced", hex(b)))?;
                if !matches!(o.content, BerObjectContent::Optional(None)) {
                    return Err(format!("{what} on {}: {:?}, inner parser: {e:?}", hex(b), o.content));
                }
                cov.label("absent");
                cov.label_if(matches!(e, NErr::Failure(_)), "absent after a hard failure");
                cov.label_if(matches!(e, NErr::Incomplete(_)), "absent after incomplete");
            }
        }
    }
    Ok(())
}

/// BER and DER variants on DER input
fn c13_agree(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let mut c = vec![];
    let (tag, class) = (gen::other_tag(s), *s.pick(&[2u8, 1, 3]));
    gen::element(s, &gen::DER, 2, &mut 6, &mut c);
    let b = gen::tlv(class, true, tag, &c);
    let x = parse_ber_tagged_explicit(Tag(tag), parse_ber)(&b);
    let y = parse_der_tagged_explicit(Tag(tag), parse_der)(&b);
    match (&x, &y) {
        (Ok((r1, o1)), Ok((r2, o2))) if r1.is_empty() && r2.is_empty() && no_raw(&dump(o1)) == no_raw(&dump(o2)) => {}
        _ => return Err(format!("explicit tag on the DER input {}: BER {x:?}, DER {y:?}", hex(&b))),
    }
    let ty = *s.pick(&gen::LEAVES);
    let c = gen::leaf_content(s, ty, &gen::DER, false);
    let i = gen::tlv(class, false, tag, &c);
    let x = parse_ber_tagged_implicit(Tag(tag), parse_ber_content(Tag(ty)))(&i);
    let y = parse_der_tagged_implicit(Tag(tag), parse_der_content(Tag(ty)))(&i);
    match (&x, &y) {
        (Ok((r1, o1)), Ok((r2, o2))) if r1.is_empty() && r2.is_empty() && no_raw(&dump(o1)) == no_raw(&dump(o2)) => {}
        _ => return Err(format!("implicit type {ty} on the DER input {}: BER {x:?}, DER {y:?}", hex(&i))),
    }
    // the same content with an indefinite length: BER only
    let mut n = vec![];
    gen::put_tag(&mut n, class, true, tag);
    n.push(0x80);
    let inner_bytes = &b[read_hdr(&b, 0).map(|h| h.body).unwrap_or(0)..];
    n.extend_from_slice(inner_bytes);
    n.extend([0, 0]);
    if parse_der_tagged_explicit(Tag(tag), parse_der)(&n).is_ok()
        || parse_der_tagged_implicit(Tag(tag), parse_der_content(Tag::Sequence))(&n).is_ok()
        || parse_der_implicit(&n, Tag(tag), parse_der_content(Tag::Sequence)).is_ok()
        || !matches!(parse_der_explicit_optional(&n, Tag(tag), parse_der), Ok((_, o)) if matches!(o.content, BerObjectContent::Optional(None)))
    {
        return Err(format!("a DER tagging parser accepts the indefinite length of {}", hex(&n)));
    }
    match parse_ber_tagged_explicit(Tag(tag), parse_ber)(&n) {
        Ok((r, o)) => match (&o.content, parse_ber(inner_bytes)) {
            (BerObjectContent::Tagged(_, _, x), Ok((_, y))) if r.is_empty() && no_raw(&dump(x)) == no_raw(&dump(&y)) => {}
            (c, _) => return Err(format!("explicit tag on {}: {c:?}", hex(&n))),
        },
        Err(e) => return Err(format!("explicit tag refuses {}: {e:?}", hex(&n))),
    }
    cov.label("DER input in both families");
    cov.nontrivial(&(b, i), || hex(&n));
    Ok(())
}

/// deep contents: each tagging layer gives the content a limit of its own
fn c13_depth(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let der = s.chance(1, 2);
    let depth = *s.pick(&[50usize, 51, 49, 48, 47, 52, 60, 2, 1, 90]);
    let b = super::limits::nest(s, depth, der, true, true);
    let Ok(h) = read_hdr(&b, 0) else { return Ok(()) };
    let (tag, class) = (gen::other_tag(s), *s.pick(&[2u8, 1, 3]));
    let fam = if der { "der" } else { "ber" };
    let ok = depth <= 50;
    let judge = |what: &str, i: &[u8], got: &BerResult, same: bool| -> Result<(), String> {
        match got {
            Ok((_, o)) if ok => {
                let want = generic(&b, der).map(|(_, o)| no_raw(&dump(&o)));
                let got = match &o.content {
                    BerObjectContent::Tagged(_, _, x) => no_raw(&dump(x)),
                    _ => no_raw(&dump(o)),
                };
                match want {
                    Ok(w) if (same && w == got) || (!same && w.c == got.c) => Ok(()),
                    w => Err(format!("parse_{fam}_{what} on {}: {got:?}, the content alone gives {w:?}", hex(i))),
                }
            }
            Ok(_) => Err(format!("parse_{fam}_{what} accepts {depth} levels: {}", hex(i))),
            Err(e) if ok => Err(format!("parse_{fam}_{what} refuses {depth} levels with {e:?}: {}", hex(i))),
            Err(e) if ec(e) != EC::Depth => Err(format!("parse_{fam}_{what} refuses {depth} levels with {e:?}: {}", hex(i))),
            Err(_) => Ok(()),
        }
    };
    // explicit: the content is the element
    let mut i = gen::tlv(class, true, tag, &b);
    if !der && s.chance(1, 3) {
        i.clear();
        gen::put_tag(&mut i, class, true, tag);
        i.push(0x80);
        i.extend(&b);
        i.extend([0, 0]);
    }
    // an indefinite wrapper may count as a level of its own
    let wrapped = i.ends_with(&[0, 0]) && i.len() > 2 && read_hdr(&i, 0).map_or(false, |h| h.len == Len::Indef);
    if !(wrapped && depth > 45) {
        let r = if der { parse_der_tagged_explicit(Tag(tag), parse_der)(&i) } else { parse_ber_tagged_explicit(Tag(tag), parse_ber)(&i) };
        judge("tagged_explicit", &i, &r, true)?;
    }
    // implicit: the tag is replaced
    if h.cons && h.len != Len::Indef {
        let i = gen::tlv(class, true, tag, &b[h.body..]);
        let ty = Tag(h.tag);
        let (r1, r2) = if der {
            (parse_der_tagged_implicit(Tag(tag), parse_der_content(ty))(&i), parse_der_implicit(&i, Tag(tag), parse_der_content(ty)))
        } else {
            (parse_ber_tagged_implicit(Tag(tag), parse_ber_content(ty))(&i), parse_ber_implicit(&i, Tag(tag), parse_ber_content(ty)))
        };
        judge("tagged_implicit", &i, &r1, false)?;
        judge("implicit", &i, &r2, false)?;
        cov.label_if(depth == 50, "implicit, at the limit");
        cov.label_if(depth == 51, "implicit, one too deep");
    }
    cov.nontrivial(&i, || hex(&i));
    Ok(())
}

/// long contents under an explicit or implicit tag
fn c13_large(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    c13_long(&gen::large(s.u64()), cov)
}
fn c13_big(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    c13_long(&gen::big(s), cov)
}
fn c13_long(b: &[u8], cov: &mut Cov) -> Result<(), String> {
    let Ok(h) = read_hdr(&b, 0) else { return Ok(()) };
    let ber = parse_ber(&b).map(|(_, o)| no_raw(&dump(&o)));
    let der = parse_der(&b).map(|(_, o)| no_raw(&dump(&o)));
    let i = gen::tlv(2, true, 9, &b);
    let mut t = i.clone();
    t.extend([5, 0]);
    let own = |r: &BerResult, rem: usize, w: &Result<D, NomErr>, what: &str| -> Result<(), String> {
        match (r, w) {
            (Ok((r, o)), Ok(w)) => match &o.content {
                BerObjectContent::Tagged(_, _, x) if r.len() == rem && no_raw(&dump(x)) == *w => Ok(()),
                BerObjectContent::Optional(Some(y)) => match &y.content {
                    BerObjectContent::Tagged(_, _, x) if r.len() == rem && no_raw(&dump(x)) == *w => Ok(()),
                    _ => Err(format!("{what}: another object than the content alone, {}", hex(&b))),
                },
                _ => Err(format!("{what}: another object than the content alone, {}", hex(&b))),
            },
            (Err(_), Err(_)) => Ok(()),
            (Ok((_, o)), Err(_)) if matches!(o.content, BerObjectContent::Optional(None)) => Ok(()),
            (r, w) => Err(format!("{what}: accepted {}, the content alone {}: {}", r.is_ok(), w.is_ok(), hex(&b))),
        }
    };
    own(&parse_ber_tagged_explicit(9, parse_ber)(&t), 2, &ber, "parse_ber_tagged_explicit")?;
    own(&parse_der_tagged_explicit(9, parse_der)(&t), 2, &der, "parse_der_tagged_explicit")?;
    own(&parse_ber_explicit_optional(&t, Tag(9), parse_ber), 2, &ber, "parse_ber_explicit_optional")?;
    own(&parse_der_explicit_optional(&t, Tag(9), parse_der), 2, &der, "parse_der_explicit_optional")?;
    if h.class == 0 && h.len != Len::Indef {
        let mut j = gen::tlv(2, h.cons, 9, &b[h.body..]);
        j.extend([5, 0]);
        let ty = Tag(h.tag);
        let same = |r: BerResult, w: &Result<D, NomErr>, what: &str| -> Result<(), String> {
            match (r, w) {
                (Ok((r, o)), Ok(w)) => {
                    let g = no_raw(&dump(&o));
                    if r.len() == 2 && plain_unknown(g).c == plain_unknown(w.clone()).c {
                        Ok(())
                    } else {
                        Err(format!("{what}: another value than under its own tag, {}", hex(&b)))
                    }
                }
                (Err(_), Err(_)) => Ok(()),
                (r, w) => Err(format!("{what}: accepted {}, under its own tag {}: {}", r.is_ok(), w.is_ok(), hex(&b))),
            }
        };
        if typed(h.tag).is_some() {
            same(parse_ber_tagged_implicit(9, parse_ber_content(ty))(&j), &ber, "parse_ber_tagged_implicit")?;
            same(parse_der_tagged_implicit(9, parse_der_content(ty))(&j), &der, "parse_der_tagged_implicit")?;
            same(parse_ber_implicit(&j, 9, parse_ber_content(ty)), &ber, "parse_ber_implicit")?;
            same(parse_der_implicit(&j, 9, parse_der_content(ty)), &der, "parse_der_implicit")?;
        }
    }
    cov.label("large");
    cov.nontrivial(&b, || hex(&b));
    Ok(())
}

pub fn c13() -> Prop {
    Prop {
        id: "C13",
        rule: "generated elements of every class, tag number (up to 32 bits), constructed bit and length form around generated contents, asked for their own or another tag number, with 8 inner parsers and every content type; one combinator instance applied to several inputs; optional forms with every inner outcome (Error, Failure, Incomplete). Non-trivial: accepted.",
        subs: vec![
            Sub { name: "explicit", size: Size::Random(1_200_000, 8_000_000), run: c13_explicit },
            Sub { name: "implicit", size: Size::Random(1_200_000, 8_000_000), run: c13_implicit },
            Sub { name: "optional", size: Size::Random(800_000, 4_000_000), run: c13_optional },
            Sub { name: "agree", size: Size::Random(400_000, 3_000_000), run: c13_agree },
            Sub { name: "depth", size: Size::Random(400_000, 2_000_000), run: c13_depth },
            Sub { name: "large", size: Size::List(gen::large_huge_codes), run: c13_large },
            Sub { name: "big", size: Size::Random(3_000, 60_000), run: c13_big },
        ],
        assumptions: &[
            "content after what the inner parser read is ignored (documented)",
            "an always-primitive type in an indefinite-length implicit element may be accepted or refused",
        ],
        debug_scale: 0.0,
    }
}
