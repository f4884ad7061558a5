//! C15 accessors and iterators, C16 visitors, C17 pretty-printing
use super::values::check_obj;
use crate::cmp::*;
use crate::driver::Prop;
use crate::engine::*;
use crate::gen::{self, hex};
use crate::parsers::*;
use crate::refm::*;
use crate::tree::{self, N};
use der_parser::asn1_rs::{ASN1DateTime, Any, Class, Oid, Tag};
use der_parser::ber::*;
use der_parser::error::BerError;
use std::fmt::Debug;

// ---------------------------------------------------------------- C15

fn only<T: Debug + PartialEq, E: Debug>(what: &str, got: Result<T, E>, want: Option<T>) -> Result<(), String> {
    match (got, want) {
        (Ok(g), Some(w)) if g == w => Ok(()),
        (Err(_), None) => Ok(()),
        (g, w) => Err(format!("{what} gives {g:?}, expected {}", w.map_or("an error".into(), |w| format!("{w:?}")))),
    }
}

/// every accessor, on the object and on its content
fn accessors(o: &BerObject, d: &D) -> Result<(), String> {
    let bool_ = if let DC::Bool(b) = d.c { Some(b) } else { None };
    only("as_bool", o.as_bool(), bool_)?;
    only("content.as_bool", o.content.as_bool(), bool_)?;

    let oid = if let DC::Oid(rel, b, _) = &d.c { Some((*rel, b.clone())) } else { None };
    let od = |r: Result<&Oid, BerError>| r.map(|x| x.as_bytes().to_vec());
    let obytes = oid.as_ref().map(|x| x.1.clone());
    only("as_oid", od(o.as_oid()), obytes.clone())?;
    only("content.as_oid", od(o.content.as_oid()), obytes.clone())?;
    only("as_oid_val", o.as_oid_val().map(|x| x.as_bytes().to_vec()), obytes.clone())?;
    only("content.as_oid_val", o.content.as_oid_val().map(|x| x.as_bytes().to_vec()), obytes)?;
    if let (Some((rel, b)), Ok(x)) = (&oid, o.as_oid_val()) {
        let w = if *rel { Oid::new_relative(b.as_slice().into()) } else { Oid::new(b.as_slice().into()) };
        if x != w {
            return Err(format!("as_oid_val gives {x:?}, expected {w:?}"));
        }
    }

    let opt = if let DC::Opt(x) = &d.c { Some(x.as_ref().map(|x| (**x).clone())) } else { None };
    only("as_optional", o.as_optional().map(|x| x.map(dump)), opt.clone())?;
    only("content.as_optional", o.content.as_optional().map(|x| x.map(dump)), opt)?;

    let tagged = if let DC::Tagged(c, t, x) = &d.c { Some((*c, *t, (**x).clone())) } else { None };
    let td = |(c, t, x): (Class, Tag, &BerObject)| (class_num(c), t.0, dump(x));
    only("as_tagged", o.as_tagged().map(td), tagged.clone())?;
    only("content.as_tagged", o.content.as_tagged().map(td), tagged)?;

    let bits = if let DC::Bits(_, b) = &d.c { Some(b.clone()) } else { None };
    only("as_bitstring_ref", o.as_bitstring_ref().map(|x| x.data.to_vec()), bits.clone())?;
    only("as_bitstring", o.as_bitstring().map(|x| x.data.to_vec()), bits.clone())?;
    only("content.as_bitstring_ref", o.content.as_bitstring_ref().map(|x| x.as_ref().to_vec()), bits.clone())?;
    only("content.as_bitstring", o.content.as_bitstring().map(|x| x.as_ref().to_vec()), bits)?;

    let list = |n: &str| match &d.c {
        DC::List(k, v) if *k == n => Some(v.clone()),
        _ => None,
    };
    let ld = |v: &Vec<BerObject>| v.iter().map(dump).collect::<Vec<_>>();
    only("as_sequence", o.as_sequence().map(ld), list("seq"))?;
    only("content.as_sequence", o.content.as_sequence().map(ld), list("seq"))?;
    only("as_set", o.as_set().map(ld), list("set"))?;
    only("content.as_set", o.content.as_set().map(ld), list("set"))?;

    let slice: Option<Vec<u8>> = match &d.c {
        DC::Text(_, s) => Some(s.as_bytes().to_vec()),
        DC::Raw("int" | "octets" | "bmp" | "universal", v) | DC::Bits(_, v) | DC::Unknown(_, v) => Some(v.clone()),
        _ => None,
    };
    only("as_slice", o.as_slice().map(|x| x.to_vec()), slice.clone())?;
    only("content.as_slice", o.content.as_slice().map(|x| x.to_vec()), slice.clone())?;
    let bitlist = slice.map(|v| v.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1 == 1)).collect::<Vec<bool>>());
    only("as_bitslice", o.as_bitslice().map(|x| x.iter().map(|b| *b).collect::<Vec<_>>()), bitlist.clone())?;
    only("content.as_bitslice", o.content.as_bitslice().map(|x| x.iter().map(|b| *b).collect::<Vec<_>>()), bitlist)?;

    let text = if let DC::Text(_, s) = &d.c { Some(s.clone()) } else { None };
    only("as_str", o.as_str().map(|x| x.to_string()), text.clone())?;
    only("content.as_str", o.content.as_str().map(|x| x.to_string()), text)?;

    // numbers
    match &d.c {
        DC::Raw("int", v) => check_obj("object", o, v)?,
        c => {
            only("as_i64", o.as_i64(), None)?;
            only("as_i32", o.as_i32(), None)?;
            only("content.as_i64", o.content.as_i64(), None)?;
            only("content.as_i32", o.content.as_i32(), None)?;
            only("as_bigint", o.as_bigint(), None)?;
            only("as_biguint", o.as_biguint(), None)?;
            let (u64_, u32_) = match c {
                DC::Enum(x) => (Some(*x), u32::try_from(*x).ok()),
                _ => (None, None),
            };
            if !matches!(c, DC::Bits(..)) {
                only("as_u64", o.as_u64(), u64_)?;
                only("as_u32", o.as_u32(), u32_)?;
                only("content.as_u64", o.content.as_u64(), u64_)?;
                only("content.as_u32", o.content.as_u32(), u32_)?;
            }
        }
    }
    header_queries(o, &d.h)
}

fn header_queries(o: &BerObject, h: &DH) -> Result<(), String> {
    let eq = |n: &str, a: bool, b: bool| if a == b { Ok(()) } else { Err(format!("{n} gives {a} on {h:?}")) };
    eq("class", class_num(o.class()) == h.class, true)?;
    eq("tag", o.tag().0 == h.tag, true)?;
    let l = match (o.length(), h.len) {
        (Length::Definite(a), Len::Def(b)) => a == b,
        (Length::Indefinite, Len::Indef) => true,
        _ => false,
    };
    eq("length", l, true)?;
    eq("is_universal", o.is_universal(), h.class == 0)?;
    eq("is_application", o.is_application(), h.class == 1)?;
    eq("is_contextspecific", o.is_contextspecific(), h.class == 2)?;
    eq("is_private", o.is_private(), h.class == 3)?;
    eq("is_primitive", o.is_primitive(), !h.cons)?;
    eq("is_constructed", o.is_constructed(), h.cons)?;
    eq("assert_constructed", o.assert_constructed().is_ok(), h.cons)?;
    eq("assert_primitive", o.assert_primitive().is_ok(), !h.cons)?;
    for c in 0..4 {
        eq("assert_class", o.assert_class(class_of(c)).is_ok(), c == h.class)?;
    }
    for t in [h.tag, h.tag.wrapping_add(1), h.tag ^ 0x80, h.tag ^ 0x20, h.tag & 0x1f, h.tag & 0xff, 0, 16, h.tag ^ (1 << 31)] {
        eq("assert_tag", o.assert_tag(Tag(t)).is_ok(), t == h.tag)?;
    }
    Ok(())
}

/// iteration in a random pattern of next / nth / size_hint calls against a list
fn walk<T>(s: &mut Src, what: &str, mut it: impl Iterator<Item = T>, list: &[D], d: impl Fn(T) -> D) -> Result<(), String> {
    let mut at = 0;
    for _ in 0..list.len() + 3 {
        let (lo, hi) = it.size_hint();
        let left = list.len().saturating_sub(at);
        if lo > left || hi.is_some_and(|h| h < left) {
            return Err(format!("{what}: size_hint ({lo}, {hi:?}) with {left} left"));
        }
        let k = if s.chance(1, 5) { s.usize(3) } else { 0 };
        let got = if k == 0 { it.next() } else { it.nth(k) }.map(&d);
        at += k;
        let want = list.get(at).cloned();
        if got != want {
            return Err(format!("{what}: item {at}: {}", diff(&got, &want)));
        }
        at += 1;
    }
    Ok(())
}

fn c15_object(s: &mut Src, o: &BerObject, d: &D, depth: usize) -> Result<(), String> {
    accessors(o, d)?;
    if dump(&o.clone()) != *d {
        return Err(format!("clone differs: {}", diff(&dump(&o.clone()), d)));
    }
    let members: Option<&Vec<D>> = if let DC::List(_, v) = &d.c { Some(v) } else { None };
    // by reference
    let none = vec![];
    let byref = members.unwrap_or(&none);
    let all: Vec<D> = o.ref_iter().take(byref.len() + 5).map(dump).collect();
    if all != *byref {
        return Err(format!("ref_iter: {}", diff(&all, byref)));
    }
    walk(s, "ref_iter", o.ref_iter(), byref, dump)?;
    // by value
    let itself = vec![d.clone()];
    let byval = members.unwrap_or(&itself);
    let mut n = 0;
    for x in o.clone().into_iter().take(byval.len() + 5) {
        if byval.get(n) != Some(&dump(&x)) {
            return Err(format!("into_iter: item {n}: {}", diff(&Some(dump(&x)), &byval.get(n))));
        }
        n += 1;
    }
    if n != byval.len() {
        return Err(format!("into_iter yields {n} of {} items", byval.len()));
    }
    walk(s, "into_iter", o.clone().into_iter(), byval, |x| dump(&x))?;
    // by index
    for (i, m) in byref.iter().enumerate() {
        let g = no_panic(&format!("index {i} of {}", byref.len()), || dump(&o[i]))?;
        if g != *m {
            return Err(format!("index {i}: {}", diff(&g, m)));
        }
    }
    // members, and what optional or tagged objects hold
    if depth > 0 {
        match &o.content {
            BerObjectContent::Sequence(v) | BerObjectContent::Set(v) => {
                for (x, m) in v.iter().zip(byref) {
                    c15_object(s, x, m, depth - 1)?;
                }
            }
            BerObjectContent::Optional(Some(x)) | BerObjectContent::Tagged(_, _, x) => {
                c15_object(s, x, &dump(x), depth - 1)?;
            }
            _ => {}
        }
    }
    Ok(())
}

fn is_list(d: &D) -> bool {
    matches!(d.c, DC::List(..))
}

fn c15_built(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let n = tree::node(s, 3, 300, true);
    let o = tree::build(&n);
    let d = tree::dump_n(&n);
    let g = dump(&o);
    if values(&g) != values(&d) {
        return Err(format!("object built from {n:?}: {}", diff(&values(&g), &values(&d))));
    }
    // a header given explicitly is stored as given
    if n.h.is_some() && g.h != d.h {
        return Err(format!("object built from {n:?}: header {}", diff(&g.h, &d.h)));
    }
    c15_object(s, &o, &g, 3).map_err(|e| format!("object built from {n:?}: {e}"))?;
    // conversions
    let f: BerObject = tree::content(&n.t).into();
    if values(&dump(&f)).c != values(&d).c || f.header.class() != Class::Universal {
        return Err(format!("From<BerObjectContent> for {n:?}: {}", diff(&values(&dump(&f)), &values(&d))));
    }
    if let tree::T::Oid(v) = &n.t {
        let f: BerObject = Oid::new(v.as_slice().into()).into();
        if f.tag().0 != T_OID || dump(&f).c != g.c {
            return Err(format!("From<Oid> for {n:?} gives {f:?}"));
        }
    }
    if let DC::Bits(_, v) = &g.c {
        if let Ok(b) = o.as_bitstring() {
            let far = s.usize(v.len() * 8 + 20);
            let w = v.get(far / 8).is_some_and(|x| x >> (7 - far % 8) & 1 == 1);
            if b.is_set(far) != w {
                return Err(format!("bit {far} of {} is {}", hex(v), !w));
            }
        }
    }
    cov.label("built");
    cov.label_if(is_list(&d), "container");
    cov.label_if(n.h.is_some(), "header unrelated to the content");
    cov.nontrivial(&format!("{n:?}"), || format!("{n:?}"));
    Ok(())
}

fn c15_parsed(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let der = s.chance(1, 3);
    let b = gen::input(s, der);
    let Ok((_, o)) = generic(&b, der) else { return Ok(()) };
    // the structure is judged by C03; here the object is described from its public fields
    let d = dump(&o);
    c15_object(s, &o, &d, 6).map_err(|e| format!("object parsed from {}: {e}", hex(&b)))?;
    cov.label("parsed");
    cov.label_if(is_list(&d), "container");
    cov.label_if(d.h.class != 0, "not universal");
    if b.len() > 3 {
        cov.nontrivial(&b, || hex(&b));
    }
    Ok(())
}

/// wide containers and long contents
fn c15_large(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let idx = s.u64();
    // the other choices follow from the index
    c15_long(&mut Src::from_seed(idx + 1), &gen::large(idx), cov)
}
fn c15_big(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let b = gen::big(s);
    c15_long(s, &b, cov)
}
fn c15_long(s: &mut Src, b: &[u8], cov: &mut Cov) -> Result<(), String> {
    let Ok((_, o)) = generic(&b, false) else { return Ok(()) };
    let d = dump(&o);
    c15_object(s, &o, &d, 1).map_err(|e| format!("object parsed from {}: {e}", hex(&b)))?;
    cov.label("large");
    cov.nontrivial(&b, || hex(&b));
    Ok(())
}

fn c16_large(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let idx = s.u64();
    // the other choices follow from the index
    c16_long(&mut Src::from_seed(idx + 1), &gen::large(idx), cov)
}
fn c16_big(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let b = gen::big(s);
    c16_long(s, &b, cov)
}
fn c16_long(s: &mut Src, b: &[u8], cov: &mut Cov) -> Result<(), String> {
    let Ok((_, o)) = generic(&b, false) else { return Ok(()) };
    visit_check(s, &o).map_err(|e| format!("object parsed from {}: {e}", hex(&b)))?;
    let pool: Vec<N> = (0..3).map(|_| tree::node(s, 1, 200, true)).collect();
    mutate_check(s, o, &pool).map_err(|e| format!("object parsed from {}: {e}", hex(&b)))?;
    cov.label("large");
    cov.nontrivial(&b, || hex(&b));
    Ok(())
}

fn c17_large(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let idx = s.u64();
    // the other choices follow from the index
    c17_long(&mut Src::from_seed(idx + 1), &gen::large(idx), cov)
}
fn c17_big(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let b = gen::big(s);
    c17_long(s, &b, cov)
}
fn c17_long(s: &mut Src, b: &[u8], cov: &mut Cov) -> Result<(), String> {
    let Ok((_, o)) = generic(&b, false) else { return Ok(()) };
    print_check(s, &o, cov).map_err(|e| format!("object parsed from {}: {e}", hex(&b)))?;
    cov.label("large");
    cov.nontrivial(&b, || hex(&b));
    Ok(())
}

/// raw identifier octets can be attached without changing anything else
fn c15_rawtag(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let n = tree::node(s, 2, 300, true);
    let k = s.usize(4);
    let raw = s.bytes(k);
    let o = tree::build(&n);
    let d = dump(&o);
    let some = s.chance(3, 4);
    let o2 = if some { o.clone().set_raw_tag(Some((&raw[..]).into())) } else { o.clone().set_raw_tag(None) };
    let mut w = d.clone();
    w.h.raw = some.then(|| raw.clone());
    if dump(&o2) != w {
        return Err(format!("set_raw_tag on {n:?}: {}", diff(&dump(&o2), &w)));
    }
    cov.nontrivial(&(format!("{n:?}"), raw), || format!("{n:?}"));
    Ok(())
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        rule: "objects of every kind (built with the constructors, with default or unrelated headers, nested, optional, tagged, unknown; and parsed from generated BER/DER input). Every accessor is called on the object and on its content and compared with a description read from the public fields; iterators are driven by random next/nth/size_hint sequences past their end. Non-trivial: built objects, and parsed inputs of more than 3 octets.",
        subs: vec![
            Sub { name: "built", size: Size::Random(1_200_000, 6_000_000), run: c15_built },
            Sub { name: "parsed", size: Size::Random(800_000, 4_000_000), run: c15_parsed },
            Sub { name: "large", size: Size::List(gen::large_codes), run: c15_large },
            Sub { name: "big", size: Size::Random(3000, 40_000), run: c15_big },
            Sub { name: "rawtag", size: Size::Random(200_000, 500_000), run: c15_rawtag },
        ],
        assumptions: &["indexing outside the members of a container panics by design and is not exercised"],
        debug_scale: 0.0,
    }
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug, PartialEq)]
enum E {
    Any(usize, D),
    Kind(usize, DC),
}

#[derive(Default)]
struct Log {
    ev: Vec<E>,
    max: usize,
}
impl Log {
    fn add(&mut self, e: E) {
        // a runaway traversal is cut short; the log then differs from the expected one
        if self.ev.len() <= self.max {
            self.ev.push(e);
        }
    }
}

fn oid_dc(rel: bool, o: &Oid) -> DC {
    DC::Oid(rel, o.as_bytes().to_vec(), crate::cmp::odd_oid(rel, o))
}

macro_rules! visit_text {
    ($($f:ident $n:expr;)*) => { $( fn $f(&mut self, s: &'a str, depth: usize) { self.add(E::Kind(depth, DC::Text($n, s.to_string()))) } )* };
}
macro_rules! visit_raw {
    ($($f:ident $n:expr;)*) => { $( fn $f(&mut self, s: &'a [u8], depth: usize) { self.add(E::Kind(depth, DC::Raw($n, s.to_vec()))) } )* };
}
macro_rules! visit_unit {
    ($($f:ident $n:expr;)*) => { $( fn $f(&mut self, depth: usize) { self.add(E::Kind(depth, DC::Raw($n, vec![]))) } )* };
}

impl<'a> Visit<'a> for Log {
    fn visit_ber(&mut self, o: &'_ BerObject<'a>, depth: usize) {
        self.add(E::Any(depth, dump(o)))
    }
    visit_text! {
        visit_ber_generalstring "general"; visit_ber_graphicstring "graphic"; visit_ber_ia5string "ia5";
        visit_ber_numericstring "numeric"; visit_ber_objectdescriptor "objdesc"; visit_ber_printablestring "printable";
        visit_ber_teletexstring "t61"; visit_ber_utf8string "utf8"; visit_ber_videotextstring "videotex";
        visit_ber_visiblestring "visible";
    }
    visit_raw! {
        visit_ber_bmpstring "bmp"; visit_ber_integer "int"; visit_ber_octetstring "octets"; visit_ber_universalstring "universal";
    }
    visit_unit! { visit_ber_endofcontent "eoc"; visit_ber_null "null"; }
    fn visit_ber_bitstring(&mut self, ignored: u8, data: &'a BitStringObject, depth: usize) {
        self.add(E::Kind(depth, DC::Bits(ignored, data.data.to_vec())))
    }
    fn visit_ber_boolean(&mut self, b: bool, depth: usize) {
        self.add(E::Kind(depth, DC::Bool(b)))
    }
    fn visit_ber_enum(&mut self, e: u64, depth: usize) {
        self.add(E::Kind(depth, DC::Enum(e)))
    }
    fn visit_ber_generalizedtime(&mut self, t: &'a ASN1DateTime, depth: usize) {
        self.add(E::Kind(depth, DC::Time("gen", time_of(t))))
    }
    fn visit_ber_utctime(&mut self, t: &'a ASN1DateTime, depth: usize) {
        self.add(E::Kind(depth, DC::Time("utc", time_of(t))))
    }
    fn visit_ber_oid(&mut self, oid: &'a Oid, depth: usize) {
        self.add(E::Kind(depth, oid_dc(false, oid)))
    }
    fn visit_ber_relative_oid(&mut self, oid: &'a Oid, depth: usize) {
        self.add(E::Kind(depth, oid_dc(true, oid)))
    }
    fn visit_ber_optional(&mut self, obj: Option<&'a BerObject<'a>>, depth: usize) {
        self.add(E::Kind(depth, DC::Opt(obj.map(|x| Box::new(dump(x))))))
    }
    fn visit_ber_sequence(&mut self, v: &'_ [BerObject<'a>], depth: usize) {
        self.add(E::Kind(depth, DC::List("seq", v.iter().map(dump).collect())))
    }
    fn visit_ber_set(&mut self, v: &'_ [BerObject<'a>], depth: usize) {
        self.add(E::Kind(depth, DC::List("set", v.iter().map(dump).collect())))
    }
    fn visit_ber_tagged(&mut self, class: Class, tag: Tag, obj: &'_ BerObject<'a>, depth: usize) {
        self.add(E::Kind(depth, DC::Tagged(class_num(class), tag.0, Box::new(dump(obj)))))
    }
    fn visit_ber_unknown(&mut self, any: &'_ Any<'a>, depth: usize) {
        self.add(E::Kind(depth, DC::Unknown(dh(&any.header), any.data.to_vec())))
    }
}

fn events(d: &D, depth: usize, out: &mut Vec<E>) {
    out.push(E::Any(depth, d.clone()));
    out.push(E::Kind(depth, d.c.clone()));
    if let DC::List(_, v) = &d.c {
        for m in v {
            events(m, depth + 1, out);
        }
    }
}

fn same_events(what: &str, got: &[E], want: &[E]) -> Result<(), String> {
    for i in 0..got.len().max(want.len()) {
        if got.get(i) != want.get(i) {
            return Err(format!("{what}: call {i} of {}: {}", want.len(), diff(&got.get(i), &want.get(i))));
        }
    }
    Ok(())
}

fn visit_check(s: &mut Src, o: &BerObject) -> Result<usize, String> {
    let d = dump(o);
    let mut w = vec![];
    events(&d, 0, &mut w);
    let mut l = Log { ev: vec![], max: w.len() + 8 };
    l.run(o);
    same_events("run", &l.ev, &w)?;
    let at = start_depth(s);
    let mut w = vec![];
    events(&d, at, &mut w);
    let mut l = Log { ev: vec![], max: w.len() + 8 };
    l.run_at(o, at);
    same_events(&format!("run_at {at}"), &l.ev, &w)?;
    if dump(o) != d {
        return Err("the object changed".into());
    }
    Ok(w.len())
}

fn c16_visit(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let n = tree::node(s, 5, 200, true);
    let o = tree::build(&n);
    let k = visit_check(s, &o).map_err(|e| format!("object built from {n:?}: {e}"))?;
    cov.label_if(k > 2, "several objects visited");
    cov.nontrivial(&format!("{n:?}"), || format!("{n:?}"));
    Ok(())
}

fn c16_parsed(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let der = s.chance(1, 3);
    let b = gen::input(s, der);
    let Ok((_, o)) = generic(&b, der) else { return Ok(()) };
    let k = visit_check(s, &o).map_err(|e| format!("object parsed from {}: {e}", hex(&b)))?;
    cov.label_if(k > 2, "several objects visited");
    if b.len() > 3 {
        cov.nontrivial(&b, || hex(&b));
    }
    Ok(())
}

// mutable visitor: the same decisions drive the library's tree and a model tree

const STRS: [&str; 4] = ["", "x", "replaced", "012 "];
const BYTES: [&[u8]; 4] = [b"", b"\x01", b"\x80\x00\xff", b"\x2a\x03\x04\x05\x06"];

struct Dec {
    seed: u64,
    k: u64,
    /// no structural growth after this many decisions
    grow: u64,
    rate: u64,
}
impl Dec {
    /// None: leave alone
    fn next(&mut self) -> Option<u64> {
        self.k += 1;
        let r = mix(self.seed, self.k);
        (r % 100 < self.rate).then(|| mix(r, 77) >> 8)
    }
}

struct Mu<'p> {
    dec: Dec,
    log: Log,
    pool: &'p [N],
}

fn list_edit<T: Clone>(v: &mut Vec<T>, r: u64, grow: bool, fresh: impl Fn(usize) -> T) {
    let x = (r >> 8) as usize;
    match r % 7 {
        0 | 1 if grow => v.push(fresh(x)),
        2 if grow => v.insert(x % (v.len() + 1), fresh(x >> 4)),
        3 if !v.is_empty() => {
            v.remove(x % v.len());
        }
        4 => v.reverse(),
        5 => v.truncate(x % (v.len() + 1)),
        6 if !v.is_empty() => {
            let i = x % v.len();
            v[i] = fresh(x >> 4);
        }
        _ => {}
    }
}

macro_rules! mut_text {
    ($($f:ident $n:expr;)*) => { $( fn $f(&mut self, s: &'a mut &'_ str, depth: usize) {
        self.log.add(E::Kind(depth, DC::Text($n, s.to_string())));
        if let Some(r) = self.dec.next() { *s = STRS[r as usize % 4]; }
    } )* };
}
macro_rules! mut_raw {
    ($($f:ident $n:expr;)*) => { $( fn $f(&mut self, s: &'a mut &'_ [u8], depth: usize) {
        self.log.add(E::Kind(depth, DC::Raw($n, s.to_vec())));
        if let Some(r) = self.dec.next() { *s = BYTES[r as usize % 4]; }
    } )* };
}
macro_rules! mut_unit {
    ($($f:ident $n:expr;)*) => { $( fn $f(&mut self, depth: usize) {
        self.log.add(E::Kind(depth, DC::Raw($n, vec![])));
        self.dec.next();
    } )* };
}

impl<'a, 'p: 'a> VisitMut<'a> for Mu<'p> {
    fn visit_ber_mut(&mut self, o: &'_ mut BerObject<'a>, depth: usize) {
        self.log.add(E::Any(depth, dump(o)));
        if let Some(r) = self.dec.next() {
            let x = (r >> 8) as usize % self.pool.len();
            let grow = self.dec.k < self.dec.grow;
            match r % 4 {
                0 if grow => *o = tree::build(&self.pool[x]),
                1 if grow => o.content = tree::build(&self.pool[x]).content,
                2 => o.header = tree::build(&self.pool[x]).header,
                3 => o.content = BerObjectContent::Null,
                _ => {}
            }
        }
    }
    mut_text! {
        visit_ber_generalstring_mut "general"; visit_ber_graphicstring_mut "graphic"; visit_ber_ia5string_mut "ia5";
        visit_ber_numericstring_mut "numeric"; visit_ber_objectdescriptor_mut "objdesc"; visit_ber_printablestring_mut "printable";
        visit_ber_teletexstring_mut "t61"; visit_ber_videotextstring_mut "videotex"; visit_ber_visiblestring_mut "visible";
    }
    mut_raw! {
        visit_ber_bmpstring_mut "bmp"; visit_ber_integer_mut "int"; visit_ber_universalstring_mut "universal";
    }
    mut_unit! { visit_ber_endofcontent_mut "eoc"; visit_ber_null_mut "null"; }
    fn visit_ber_utf8string_mut(&mut self, s: &'a str, depth: usize) {
        self.log.add(E::Kind(depth, DC::Text("utf8", s.to_string())));
        self.dec.next();
    }
    fn visit_ber_octetstring_mut(&mut self, s: &'a [u8], depth: usize) {
        self.log.add(E::Kind(depth, DC::Raw("octets", s.to_vec())));
        self.dec.next();
    }
    fn visit_ber_bitstring_mut(&mut self, ignored: &mut u8, data: &'a mut BitStringObject, depth: usize) {
        self.log.add(E::Kind(depth, DC::Bits(*ignored, data.data.to_vec())));
        if let Some(r) = self.dec.next() {
            *ignored = (r >> 8) as u8;
            data.data = BYTES[r as usize % 4];
        }
    }
    fn visit_ber_boolean_mut(&mut self, b: &'a mut bool, depth: usize) {
        self.log.add(E::Kind(depth, DC::Bool(*b)));
        if self.dec.next().is_some() {
            *b = !*b;
        }
    }
    fn visit_ber_enum_mut(&mut self, e: &'a mut u64, depth: usize) {
        self.log.add(E::Kind(depth, DC::Enum(*e)));
        if let Some(r) = self.dec.next() {
            *e = r;
        }
    }
    fn visit_ber_generalizedtime_mut(&mut self, t: &'a ASN1DateTime, depth: usize) {
        self.log.add(E::Kind(depth, DC::Time("gen", time_of(t))));
        self.dec.next();
    }
    fn visit_ber_utctime_mut(&mut self, t: &'a ASN1DateTime, depth: usize) {
        self.log.add(E::Kind(depth, DC::Time("utc", time_of(t))));
        self.dec.next();
    }
    fn visit_ber_oid_mut(&mut self, oid: &'a mut Oid, depth: usize) {
        self.log.add(E::Kind(depth, oid_dc(false, oid)));
        if let Some(r) = self.dec.next() {
            *oid = Oid::new(BYTES[r as usize % 4].into());
        }
    }
    fn visit_ber_relative_oid_mut(&mut self, oid: &'a mut Oid, depth: usize) {
        self.log.add(E::Kind(depth, oid_dc(true, oid)));
        if let Some(r) = self.dec.next() {
            *oid = Oid::new_relative(BYTES[r as usize % 4].into());
        }
    }
    fn visit_ber_optional_mut(&mut self, obj: Option<&'a mut BerObject<'a>>, depth: usize) {
        self.log.add(E::Kind(depth, DC::Opt(obj.as_ref().map(|x| Box::new(dump(x))))));
        if let (Some(r), Some(o)) = (self.dec.next(), obj) {
            o.content = BerObjectContent::Enum(r);
        }
    }
    fn visit_ber_sequence_mut(&mut self, v: &'_ mut Vec<BerObject<'a>>, depth: usize) {
        self.log.add(E::Kind(depth, DC::List("seq", v.iter().map(dump).collect())));
        self.edit(v);
    }
    fn visit_ber_set_mut(&mut self, v: &'_ mut Vec<BerObject<'a>>, depth: usize) {
        self.log.add(E::Kind(depth, DC::List("set", v.iter().map(dump).collect())));
        self.edit(v);
    }
    fn visit_ber_tagged_mut(&mut self, class: &'a mut Class, tag: &'a mut Tag, obj: &'a mut BerObject<'a>, depth: usize) {
        self.log.add(E::Kind(depth, DC::Tagged(class_num(*class), tag.0, Box::new(dump(obj)))));
        if let Some(r) = self.dec.next() {
            *class = class_of((r % 4) as u8);
            *tag = Tag((r >> 8) as u32);
            obj.content = BerObjectContent::Enum(r);
        }
    }
    fn visit_ber_unknown_mut(&mut self, any: &'_ mut Any<'a>, depth: usize) {
        self.log.add(E::Kind(depth, DC::Unknown(dh(&any.header), any.data.to_vec())));
        if let Some(r) = self.dec.next() {
            any.data = BYTES[r as usize % 4];
        }
    }
}

impl<'p> Mu<'p> {
    fn edit<'a>(&mut self, v: &mut Vec<BerObject<'a>>)
    where
        'p: 'a,
    {
        if let Some(r) = self.dec.next() {
            let grow = self.dec.k < self.dec.grow;
            let pool = self.pool;
            list_edit(v, r, grow, |x| tree::build(&pool[x % pool.len()]));
        }
    }
}

/// what the mutable visitor must do, on a description
fn model_mut(d: &mut D, depth: usize, dec: &mut Dec, pool: &[D], out: &mut Vec<E>) {
    out.push(E::Any(depth, d.clone()));
    if let Some(r) = dec.next() {
        let x = (r >> 8) as usize % pool.len();
        let grow = dec.k < dec.grow;
        match r % 4 {
            0 if grow => *d = pool[x].clone(),
            1 if grow => d.c = pool[x].c.clone(),
            2 => d.h = pool[x].h.clone(),
            3 => d.c = DC::Raw("null", vec![]),
            _ => {}
        }
    }
    out.push(E::Kind(depth, d.c.clone()));
    let r = dec.next();
    let grow = dec.k < dec.grow;
    if let Some(r) = r {
        match &mut d.c {
            DC::Raw("eoc" | "null" | "octets", _) | DC::Text("utf8", _) | DC::Time(..) => {}
            DC::Raw(_, v) | DC::Oid(_, v, _) | DC::Unknown(_, v) => *v = BYTES[r as usize % 4].to_vec(),
            DC::Text(_, s) => *s = STRS[r as usize % 4].to_string(),
            DC::Bits(u, v) => {
                *u = (r >> 8) as u8;
                *v = BYTES[r as usize % 4].to_vec();
            }
            DC::Bool(b) => *b = !*b,
            DC::Enum(e) => *e = r,
            DC::Opt(Some(o)) => o.c = DC::Enum(r),
            DC::Opt(None) => {}
            DC::Tagged(c, t, o) => {
                *c = (r % 4) as u8;
                *t = (r >> 8) as u32;
                o.c = DC::Enum(r);
            }
            DC::List(_, v) => list_edit(v, r, grow, |x| pool[x % pool.len()].clone()),
        }
    }
    if let DC::List(_, v) = &mut d.c {
        for m in v {
            model_mut(m, depth + 1, dec, pool, out);
        }
    }
}

/// depth a traversal starts at
fn start_depth(s: &mut Src) -> usize {
    match s.weighted(&[9, 1]) {
        0 => s.range(0, 1000),
        _ => s.lit(1 << 40) as usize,
    }
}

fn mutate_check(s: &mut Src, o: BerObject<'_>, pool: &[N]) -> Result<(usize, D), String> {
    let seed = s.u64();
    let rate = *s.pick(&[0u64, 10, 30, 60]);
    let at = if s.chance(1, 2) { Some(start_depth(s)) } else { None };
    let mk = || Dec { seed, k: 0, grow: 80, rate };
    let mut want = dump(&o);
    let before = want.clone();
    let pd: Vec<D> = pool.iter().map(|n| dump(&tree::build(n))).collect();
    let mut ev = vec![];
    model_mut(&mut want, at.unwrap_or(0), &mut mk(), &pd, &mut ev);

    let mut mu = Mu { dec: mk(), log: Log { ev: vec![], max: ev.len() + 8 }, pool };
    // `run` borrows the object for its own lifetime; look at it afterwards through the same pointer
    let p = Box::into_raw(Box::new(o));
    let r = no_panic("mutable visitor", || {
        let o = unsafe { &mut *p };
        match at {
            None => mu.run(o),
            Some(k) => mu.run_at(o, k),
        }
    });
    let got = dump(unsafe { &*p });
    drop(unsafe { Box::from_raw(p) });
    r?;
    same_events("mutable visitor", &mu.log.ev, &ev)?;
    if got != want {
        return Err(format!("tree after the visit: {}", diff(&got, &want)));
    }
    Ok((ev.len(), if got == before { before } else { got }))
}

fn c16_mutate(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let pool: Vec<N> = (0..5).map(|_| tree::node(s, 2, 200, true)).collect();
    let n = tree::node(s, 4, 200, true);
    let (k, after) = mutate_check(s, tree::build(&n), &pool).map_err(|e| format!("object built from {n:?}: {e}"))?;
    cov.label_if(k > 2, "several objects visited");
    cov.label_if(after != dump(&tree::build(&n)), "tree changed");
    cov.nontrivial(&format!("{n:?}{after:?}"), || format!("{n:?}"));
    Ok(())
}

fn c16_mutate_parsed(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let b = gen::one(s, &gen::BER);
    let pool: Vec<N> = (0..3).map(|_| tree::node(s, 1, 200, true)).collect();
    let Ok((_, o)) = parse_ber(&b) else { return Ok(()) };
    let (k, _) = mutate_check(s, o, &pool).map_err(|e| format!("object parsed from {}: {e}", hex(&b)))?;
    cov.label_if(k > 2, "several objects visited");
    cov.nontrivial(&b, || hex(&b));
    Ok(())
}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        rule: "object trees of every kind (built and parsed), visited from depth 0 and from random depths; every callback of both visitors is implemented and logged, and the log is compared with the log a model traversal predicts. The mutable visitor edits what it is given (values, headers, whole objects, members added, removed, reordered, replaced) by a decision stream that also drives the model; logs and final trees are compared. Non-trivial: distinct trees.",
        subs: vec![
            Sub { name: "visit", size: Size::Random(600_000, 3_000_000), run: c16_visit },
            Sub { name: "visit-parsed", size: Size::Random(600_000, 3_000_000), run: c16_parsed },
            Sub { name: "mutate", size: Size::Random(600_000, 3_000_000), run: c16_mutate },
            Sub { name: "large", size: Size::List(gen::large_codes), run: c16_large },
            Sub { name: "big", size: Size::Random(3000, 40_000), run: c16_big },
            Sub { name: "mutate-parsed", size: Size::Random(400_000, 2_000_000), run: c16_mutate_parsed },
        ],
        assumptions: &["optional and tagged objects are one object to a visitor: what they hold is passed to their callback and not visited further"],
        debug_scale: 0.0,
    }
}

// ---------------------------------------------------------------- C17

enum Tok {
    Lit(String),
    /// anything
    Gap,
}

fn hexslice(v: &[u8]) -> String {
    format!("[{}]", v.iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(" "))
}

fn utf32(v: &[u8]) -> Option<String> {
    if v.len() % 4 != 0 {
        return None;
    }
    v.chunks(4).map(|c| char::from_u32(u32::from_be_bytes([c[0], c[1], c[2], c[3]]))).collect()
}

fn utf16(v: &[u8]) -> Option<String> {
    if v.len() % 2 != 0 {
        return None;
    }
    String::from_utf16(&v.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect::<Vec<_>>()).ok()
}

struct Pp {
    recursive: bool,
    header: bool,
    inc: usize,
}

fn header_text(h: &DH) -> String {
    let plus = if h.cons { "+" } else { "" };
    let l = match h.len {
        Len::Def(n) => n.to_string(),
        Len::Indef => "Indefinite".into(),
    };
    let t = match h.class {
        0 => format!("{}", Tag(h.tag)),
        2 => h.tag.to_string(),
        1 => format!("APPLICATION {}", h.tag),
        _ => format!("PRIVATE {}", h.tag),
    };
    format!("[{t}]{plus} {l} ")
}

fn class_text(c: u8) -> &'static str {
    ["UNIVERSAL", "APPLICATION", "CONTEXT-SPECIFIC", "PRIVATE"][c as usize & 3]
}

fn expect(o: &BerObject, d: &D, indent: usize, pp: &Pp, out: &mut Vec<Tok>) {
    let mut s = " ".repeat(indent);
    if pp.header {
        s += &header_text(&d.h);
    }
    let quoted = |ty: &str, v: &str| format!("{ty}(\"{v}\")");
    match &d.c {
        DC::Raw("eoc", _) => s += "EndOfContent",
        DC::Raw("null", _) => s += "Null",
        DC::Bool(b) => s += &format!("Boolean({b})"),
        DC::Raw("int", v) => s += &format!("Integer({})", hexslice(v)),
        DC::Raw("octets", v) => s += &format!("OctetString({})", hexslice(v)),
        DC::Bits(u, v) => s += &format!("BitString({u},{})", hexslice(v)),
        DC::Enum(v) => s += &format!("Enum({v})"),
        DC::Oid(false, v, _) => s += &format!("OID({:?})", Oid::new(v.as_slice().into())),
        DC::Oid(true, v, _) => s += &format!("RelativeOID({:?})", Oid::new_relative(v.as_slice().into())),
        DC::Time(k, t) => s += &quoted(if *k == "utc" { "UTCTime" } else { "GeneralizedTime" }, &tree::asn1_time(t).to_string()),
        DC::Text("t61", v) => s += &format!("T61String({v})"),
        DC::Text("videotex", v) => s += &format!("VideotexString({v})"),
        DC::Text(k, v) => {
            let ty = match *k {
                "visible" => "VisibleString",
                "general" => "GeneralString",
                "graphic" => "GraphicString",
                "printable" => "PrintableString",
                "numeric" => "NumericString",
                "utf8" => "UTF8String",
                "ia5" => "IA5String",
                _ => "ObjectDescriptor",
            };
            s += &quoted(ty, v)
        }
        DC::Raw("bmp", v) => match utf16(v) {
            Some(t) => s += &quoted("BmpString", &t),
            None => {
                // not text: the octets themselves are shown, with a remark
                s += &format!("BmpString({:?})", v.as_slice());
                out.push(Tok::Lit(s));
                out.push(Tok::Gap);
                return;
            }
        },
        DC::Raw(_, v) => match utf32(v) {
            Some(t) => s += &quoted("UniversalString", &t),
            None => {
                // not text: the octets themselves are shown, with a remark
                s += &format!("UniversalString({:?})", v.as_slice());
                out.push(Tok::Lit(s));
                out.push(Tok::Gap);
                return;
            }
        },
        DC::Unknown(_, v) => s += &format!("Unknown {}", hexslice(v)),
        DC::Opt(None) => s += "NONE",
        DC::Opt(Some(_)) => {
            s += "OPTION ";
            if let BerObjectContent::Optional(Some(x)) = &o.content {
                s += &format!("{x:?}");
            }
        }
        DC::Tagged(c, t, x) => {
            s += &format!("ContextSpecific [{} {t}] {{", class_text(*c));
            out.push(Tok::Lit(s));
            if pp.recursive {
                if let BerObjectContent::Tagged(_, _, xo) = &o.content {
                    expect(xo, x, indent + pp.inc, pp, out);
                }
                out.push(Tok::Lit(format!("{}}}", " ".repeat(indent))));
            } else {
                out.push(Tok::Gap);
                out.push(Tok::Lit("}".into()));
            }
            return;
        }
        DC::List(k, v) => {
            s += if *k == "seq" { "Sequence" } else { "Set" };
            if pp.recursive {
                s.push('[');
                out.push(Tok::Lit(s));
                if let BerObjectContent::Sequence(l) | BerObjectContent::Set(l) = &o.content {
                    for (xo, x) in l.iter().zip(v) {
                        expect(xo, x, indent + pp.inc, pp, out);
                    }
                }
                out.push(Tok::Lit(format!("{}]", " ".repeat(indent))));
                return;
            }
        }
    }
    out.push(Tok::Lit(s));
}

/// line breaks are layout: compared without them
fn strip(s: &str) -> String {
    s.chars().filter(|c| *c != '\n').collect()
}

fn matches(text: &str, toks: &[Tok]) -> Result<(), String> {
    // join adjacent literals
    let mut parts: Vec<Option<String>> = vec![];
    for t in toks {
        match (t, parts.last_mut()) {
            (Tok::Lit(s), Some(Some(p))) => p.push_str(s),
            (Tok::Lit(s), _) => parts.push(Some(s.clone())),
            (Tok::Gap, Some(None)) => {}
            (Tok::Gap, _) => parts.push(None),
        }
    }
    fn go(t: &str, p: &[Option<String>]) -> bool {
        match p {
            [] => t.is_empty(),
            [Some(l), rest @ ..] => t.strip_prefix(strip(l).as_str()).is_some_and(|t| go(t, rest)),
            [None] => true,
            [None, rest @ ..] => t.char_indices().map(|(i, _)| i).chain([t.len()]).any(|i| go(&t[i..], rest)),
        }
    }
    if go(&strip(text), &parts) {
        return Ok(());
    }
    let want: String = parts.iter().map(|p| p.as_ref().map_or("...".to_string(), |x| strip(x))).collect();
    let mut m = format!("printed {:?}, expected (without line breaks) {want:?}", text);
    if m.len() > 2000 {
        let mut k = 2000;
        while !m.is_char_boundary(k) {
            k -= 1;
        }
        m.truncate(k);
    }
    Err(m)
}

fn print_check(s: &mut Src, o: &BerObject, cov: &mut Cov) -> Result<(), String> {
    let indent = match s.weighted(&[40, 1]) {
        0 => *s.pick(&[0usize, 0, 1, 2, 3, 4, 7, 16]),
        _ => s.lit(2000) as usize,
    };
    let inc = match s.weighted(&[40, 1]) {
        0 => *s.pick(&[2usize, 0, 1, 3, 4, 8]),
        _ => s.lit(100) as usize,
    };
    print_check_at(s, o, indent, inc, cov)
}

fn print_check_at(s: &mut Src, o: &BerObject, indent: usize, inc: usize, cov: &mut Cov) -> Result<(), String> {
    use PrettyPrinterFlag::*;
    let d = dump(o);
    // flags through a history of operations, mirrored in a set
    let mut set = [false; 2];
    let all = [Recursive, ShowHeader];
    let mut pp = if s.chance(1, 2) {
        set[0] = true;
        o.as_pretty(indent, inc)
    } else {
        let k = s.usize(4);
        let init: Vec<PrettyPrinterFlag> = (0..k)
            .map(|_| {
                let f = s.usize(2);
                set[f] = true;
                all[f]
            })
            .collect();
        PrettyBer::new(o, init, indent, inc)
    };
    for _ in 0..s.usize(6) {
        let f = s.usize(2);
        if s.chance(1, 2) {
            pp.unset_flag(all[f]);
            set[f] = false;
        } else {
            pp.set_flag(all[f]);
            set[f] = true;
        }
        for (i, f) in all.iter().enumerate() {
            if pp.is_flag_set(*f) != set[i] {
                return Err(format!("flag {f:?} is {}, expected {}", !set[i], set[i]));
            }
        }
    }
    let text = format!("{pp:?}");
    let mut toks = vec![];
    expect(o, &d, indent, &Pp { recursive: set[0], header: set[1], inc }, &mut toks);
    matches(&text, &toks).map_err(|e| format!("indent {indent}, increment {inc}, recursive {}, header {}: {e}", set[0], set[1]))?;
    if format!("{pp:?}") != text {
        return Err("printing twice gives different text".into());
    }
    // the same flags set directly
    let direct: Vec<PrettyPrinterFlag> = (0..2).rev().filter(|i| set[*i]).map(|i| all[i]).collect();
    let t2 = format!("{:?}", PrettyBer::new(o, direct.clone(), indent, inc));
    if t2 != text {
        return Err(format!("flag history changes the output: {text:?} against {t2:?}"));
    }
    // next_indent: same settings, one level deeper
    let t3 = format!("{:?}", pp.next_indent(o));
    let t4 = format!("{:?}", PrettyBer::new(o, direct, indent + inc, inc));
    if t3 != t4 {
        return Err(format!("next_indent prints {t3:?}, expected {t4:?}"));
    }
    cov.label_if(set[0], "recursive");
    cov.label_if(!set[0], "not recursive");
    cov.label_if(set[1], "with headers");
    cov.label_if(is_list(&d), "container");
    Ok(())
}

fn c17_built(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let n = tree::node(s, 4, 200, true);
    let o = tree::build(&n);
    print_check(s, &o, cov).map_err(|e| format!("object built from {n:?}: {e}"))?;
    cov.nontrivial(&format!("{n:?}"), || format!("{n:?}"));
    Ok(())
}

fn c17_parsed(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let der = s.chance(1, 3);
    let b = gen::input(s, der);
    let Ok((_, o)) = generic(&b, der) else { return Ok(()) };
    print_check(s, &o, cov).map_err(|e| format!("object parsed from {}: {e}", hex(&b)))?;
    if b.len() > 3 {
        cov.nontrivial(&b, || hex(&b));
    }
    Ok(())
}

/// a flag or nesting error at one level only: deep chains with mixed containers
fn c17_deep(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let depth = s.range(1, 40);
    let mut n = tree::node(s, 0, 0, false);
    for _ in 0..depth {
        let mut v = vec![n];
        if s.chance(1, 3) {
            v.push(tree::node(s, 0, 100, true));
        }
        if s.chance(1, 4) {
            v.insert(0, tree::node(s, 0, 100, true));
        }
        let t = match s.below(5) {
            0 | 1 => tree::T::Seq(v),
            2 | 3 => tree::T::Set(v),
            _ => tree::T::Tagged(*s.pick(&[1u8, 2, 3]), gen::other_tag(s), Box::new(v.remove(0))),
        };
        n = N { h: None, t };
    }
    let o = tree::build(&n);
    print_check(s, &o, cov).map_err(|e| format!("object built from {n:?}: {e}"))?;
    cov.label("deep");
    cov.nontrivial(&format!("{n:?}"), || format!("{n:?}"));
    Ok(())
}

/// indentation far beyond any screen
fn c17_far(s: &mut Src, cov: &mut Cov) -> Result<(), String> {
    let n = tree::node(s, 2, 20, true);
    let o = tree::build(&n);
    let near = |s: &mut Src| (*s.pick(&[256usize, 32_768, 65_536, 131_072, 65_535 * 2]) + s.usize(9)).saturating_sub(5);
    let indent = if s.chance(1, 2) { near(s) } else { s.usize(70_000) };
    let inc = match s.below(3) {
        0 => near(s),
        1 => s.usize(40_000),
        _ => s.usize(4),
    };
    print_check_at(s, &o, indent, inc, cov).map_err(|e| format!("object built from {n:?}: {}", e.replace("          ", "")))?;
    cov.nontrivial(&format!("{n:?} {indent} {inc}"), || format!("indent {indent}, increment {inc}: {n:?}"));
    Ok(())
}

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        rule: "object trees of every kind (built, parsed, deep chains), printed with random indents, increments and flag histories; the text, line breaks apart, is compared with the rendering computed from the tree. Non-trivial: distinct trees.",
        subs: vec![
            Sub { name: "built", size: Size::Random(800_000, 4_000_000), run: c17_built },
            Sub { name: "parsed", size: Size::Random(600_000, 4_000_000), run: c17_parsed },
            Sub { name: "large", size: Size::List(gen::large_codes), run: c17_large },
            Sub { name: "big", size: Size::Random(3000, 40_000), run: c17_big },
            Sub { name: "deep", size: Size::Random(80_000, 300_000), run: c17_deep },
            Sub { name: "far", size: Size::Random(300, 6_000), run: c17_far },
        ],
        assumptions: &[
            "line breaks are layout and not compared",
            "the remark that follows the octets of a BMP/universal string that does not decode is not specified",
            "the standard notations of OIDs and times are those of asn1-rs",
        ],
        debug_scale: 0.0,
    }
}
