//! Comparing der-parser objects with the reference model, and with each other.
use crate::refm::*;
use der_parser::asn1_rs::{ASN1DateTime, ASN1TimeZone, Class, Header, Length, Oid};
use der_parser::ber::{BerObject, BerObjectContent as C};
use der_parser::error::BerError;
use der_parser::nom;

pub type NomErr = nom::Err<BerError>;

/// error classes the properties distinguish
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EC {
    Incomplete,
    Depth,
    InvalidLength,
    Other,
}

pub fn ec(e: &NomErr) -> EC {
    match e {
        nom::Err::Incomplete(_) => EC::Incomplete,
        nom::Err::Error(e) | nom::Err::Failure(e) => match e {
            BerError::BerMaxDepth => EC::Depth,
            BerError::InvalidLength => EC::InvalidLength,
            _ => EC::Other,
        },
    }
}

pub fn fault_allows(f: &Faults, e: EC) -> bool {
    match e {
        EC::Incomplete => f.incomplete,
        EC::Depth => f.depth,
        EC::InvalidLength | EC::Other => f.reject,
    }
}

pub fn class_num(c: Class) -> u8 {
    match c {
        Class::Universal => 0,
        Class::Application => 1,
        Class::ContextSpecific => 2,
        Class::Private => 3,
    }
}

pub fn class_of(n: u8) -> Class {
    match n {
        0 => Class::Universal,
        1 => Class::Application,
        2 => Class::ContextSpecific,
        _ => Class::Private,
    }
}

/// Structural, total description of an object (header equality in asn1-rs ignores fields)
#[derive(Clone, Debug, PartialEq)]
pub struct DH {
    pub class: u8,
    pub cons: bool,
    pub tag: u32,
    pub len: Len,
    pub raw: Option<Vec<u8>>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct D {
    pub h: DH,
    pub c: DC,
}
pub fn odd_oid(rel: bool, o: &Oid) -> bool {
    let b = o.as_bytes().into();
    *o != if rel { Oid::new_relative(b) } else { Oid::new(b) }
}

#[derive(Clone, Debug, PartialEq)]
pub enum DC {
    Raw(&'static str, Vec<u8>),
    Bool(bool),
    Bits(u8, Vec<u8>),
    Enum(u64),
    /// relative, octets, whether the value's own notion of being relative differs from the variant
    Oid(bool, Vec<u8>, bool),
    Text(&'static str, String),
    List(&'static str, Vec<D>),
    Time(&'static str, Time),
    Opt(Option<Box<D>>),
    Tagged(u8, u32, Box<D>),
    Unknown(DH, Vec<u8>),
}

pub fn dh(h: &Header) -> DH {
    DH {
        class: class_num(h.class()),
        cons: h.constructed(),
        tag: h.tag().0,
        len: match h.length() {
            Length::Definite(l) => Len::Def(l),
            Length::Indefinite => Len::Indef,
        },
        raw: h.raw_tag().map(|x| x.to_vec()),
    }
}

pub fn time_of(t: &ASN1DateTime) -> Time {
    Time {
        year: t.year,
        month: t.month,
        day: t.day,
        hour: t.hour,
        minute: t.minute,
        second: t.second,
        ms: t.millisecond,
        tz: match t.tz {
            ASN1TimeZone::Undefined => Tz::None,
            ASN1TimeZone::Z => Tz::Z,
            ASN1TimeZone::Offset(h, m) => Tz::Off(h, m),
        },
    }
}

pub fn dc(c: &C) -> DC {
    let oid = |rel: bool, o: &Oid| DC::Oid(rel, o.as_bytes().to_vec(), odd_oid(rel, o));
    match c {
        C::EndOfContent => DC::Raw("eoc", vec![]),
        C::Null => DC::Raw("null", vec![]),
        C::Boolean(b) => DC::Bool(*b),
        C::Integer(s) => DC::Raw("int", s.to_vec()),
        C::BitString(u, b) => DC::Bits(*u, b.data.to_vec()),
        C::OctetString(s) => DC::Raw("octets", s.to_vec()),
        C::Enum(v) => DC::Enum(*v),
        C::OID(o) => oid(false, o),
        C::RelativeOID(o) => oid(true, o),
        C::NumericString(s) => DC::Text("numeric", s.to_string()),
        C::VisibleString(s) => DC::Text("visible", s.to_string()),
        C::PrintableString(s) => DC::Text("printable", s.to_string()),
        C::IA5String(s) => DC::Text("ia5", s.to_string()),
        C::UTF8String(s) => DC::Text("utf8", s.to_string()),
        C::T61String(s) => DC::Text("t61", s.to_string()),
        C::VideotexString(s) => DC::Text("videotex", s.to_string()),
        C::ObjectDescriptor(s) => DC::Text("objdesc", s.to_string()),
        C::GraphicString(s) => DC::Text("graphic", s.to_string()),
        C::GeneralString(s) => DC::Text("general", s.to_string()),
        C::BmpString(s) => DC::Raw("bmp", s.to_vec()),
        C::UniversalString(s) => DC::Raw("universal", s.to_vec()),
        C::Sequence(v) => DC::List("seq", v.iter().map(dump).collect()),
        C::Set(v) => DC::List("set", v.iter().map(dump).collect()),
        C::UTCTime(t) => DC::Time("utc", time_of(t)),
        C::GeneralizedTime(t) => DC::Time("gen", time_of(t)),
        C::Optional(o) => DC::Opt(o.as_ref().map(|x| Box::new(dump(x)))),
        C::Tagged(cl, t, o) => DC::Tagged(class_num(*cl), t.0, Box::new(dump(o))),
        C::Unknown(any) => DC::Unknown(dh(&any.header), any.data.to_vec()),
    }
}

pub fn dump(o: &BerObject) -> D {
    D { h: dh(&o.header), c: dc(&o.content) }
}

/// the same description with length forms and raw identifier octets erased (values only)
pub fn values(d: &D) -> D {
    fn h(x: &DH) -> DH {
        DH { raw: None, len: Len::Indef, ..x.clone() }
    }
    D {
        h: h(&d.h),
        c: match &d.c {
            DC::List(n, v) => DC::List(n, v.iter().map(values).collect()),
            DC::Opt(o) => DC::Opt(o.as_ref().map(|x| Box::new(values(x)))),
            DC::Tagged(c, t, o) => DC::Tagged(*c, *t, Box::new(values(o))),
            DC::Unknown(x, v) => DC::Unknown(h(x), v.clone()),
            other => other.clone(),
        },
    }
}

pub fn text_name(tag: u32) -> &'static str {
    match tag {
        T_NUMERIC => "numeric",
        T_VISIBLE => "visible",
        T_PRINTABLE => "printable",
        T_IA5 => "ia5",
        T_UTF8 => "utf8",
        T_T61 => "t61",
        T_VIDEOTEX => "videotex",
        T_OBJDESC => "objdesc",
        T_GRAPHIC => "graphic",
        T_GENERAL => "general",
        _ => "?",
    }
}

/// description the model assigns to a node read as type `tag`
pub fn model_content(b: &[u8], n: &Node, tag: u32) -> DC {
    let s = n.content(b);
    match &n.val {
        Val::Eoc => DC::Raw("eoc", vec![]),
        Val::Null => DC::Raw("null", vec![]),
        Val::Bool(x) => DC::Bool(*x),
        Val::Int => DC::Raw("int", s.to_vec()),
        Val::Bits(u) => DC::Bits(*u, s[1..].to_vec()),
        Val::Octets => DC::Raw("octets", s.to_vec()),
        Val::Enum(v) => DC::Enum(*v),
        Val::Oid => DC::Oid(false, s.to_vec(), false),
        Val::RelOid => DC::Oid(true, s.to_vec(), false),
        Val::Str => DC::Text(text_name(tag), String::from_utf8(s.to_vec()).unwrap_or_default()),
        Val::Bmp => DC::Raw("bmp", s.to_vec()),
        Val::Univ => DC::Raw("universal", s.to_vec()),
        Val::Seq(v) => DC::List("seq", v.iter().map(|x| model_dump(b, x)).collect()),
        Val::Set(v) => DC::List("set", v.iter().map(|x| model_dump(b, x)).collect()),
        Val::Utc(t) => DC::Time("utc", t.clone()),
        Val::Gen(t) => DC::Time("gen", t.clone()),
        Val::Unknown => DC::Unknown(model_dh(b, n), s.to_vec()),
    }
}

pub fn model_dh(b: &[u8], n: &Node) -> DH {
    DH { class: n.h.class, cons: n.h.cons, tag: n.h.tag, len: n.h.len, raw: Some(b[n.h.start..n.h.tag_end].to_vec()) }
}

pub fn model_dump(b: &[u8], n: &Node) -> D {
    D { h: model_dh(b, n), c: model_content(b, n, n.h.tag) }
}

/// forget raw identifier octets
pub fn no_raw(d: &D) -> D {
    fn h(x: &DH) -> DH {
        DH { raw: None, ..x.clone() }
    }
    D {
        h: h(&d.h),
        c: match &d.c {
            DC::List(n, v) => DC::List(n, v.iter().map(no_raw).collect()),
            DC::Opt(o) => DC::Opt(o.as_ref().map(|x| Box::new(no_raw(x)))),
            DC::Tagged(c, t, o) => DC::Tagged(*c, *t, Box::new(no_raw(o))),
            DC::Unknown(x, v) => DC::Unknown(h(x), v.clone()),
            other => other.clone(),
        },
    }
}

/// Check that every slice of the object lies in the input at the place the model says.
pub fn check_borrow(b: &[u8], o: &BerObject, n: &Node) -> Result<(), String> {
    let base = b.as_ptr() as usize;
    let at = |what: &str, s: &[u8], lo: usize, hi: usize| -> Result<(), String> {
        if s.len() != hi - lo {
            return Err(format!("{what}: slice of {} bytes, expected offsets {lo}..{hi}", s.len()));
        }
        if s.is_empty() || s.as_ptr() as usize == base + lo {
            return Ok(());
        }
        Err(format!("{what}: slice does not point at offset {lo} of the input"))
    };
    if let Some(r) = o.header.raw_tag() {
        at("identifier octets", r, n.h.start, n.h.tag_end)?;
    }
    match &o.content {
        C::Integer(s) | C::OctetString(s) | C::BmpString(s) | C::UniversalString(s) => at("content", s, n.c0, n.c1)?,
        C::BitString(_, bs) => at("bit string", bs.data, n.c0 + 1, n.c1)?,
        C::OID(o) | C::RelativeOID(o) => at("oid", o.as_bytes(), n.c0, n.c1)?,
        C::NumericString(s)
        | C::VisibleString(s)
        | C::PrintableString(s)
        | C::IA5String(s)
        | C::UTF8String(s)
        | C::T61String(s)
        | C::VideotexString(s)
        | C::ObjectDescriptor(s)
        | C::GraphicString(s)
        | C::GeneralString(s) => at("text", s.as_bytes(), n.c0, n.c1)?,
        C::Unknown(any) => {
            at("unknown content", any.data, n.c0, n.c1)?;
            if let Some(r) = any.header.raw_tag() {
                at("identifier octets", r, n.h.start, n.h.tag_end)?;
            }
        }
        C::Sequence(v) | C::Set(v) => {
            if v.len() != n.members().len() {
                return Err("member count differs from the input".into());
            }
            for (x, m) in v.iter().zip(n.members()) {
                check_borrow(b, x, m)?;
            }
        }
        _ => {}
    }
    Ok(())
}

/// `rem` must be exactly b[at..]
pub fn check_rem(b: &[u8], rem: &[u8], at: usize) -> Result<(), String> {
    if rem.len() != b.len() - at {
        return Err(format!("consumed {} bytes, the element has {at}", b.len() as i64 - rem.len() as i64));
    }
    if !rem.is_empty() && rem.as_ptr() as usize != b.as_ptr() as usize + at {
        return Err("remainder is not the tail of the input".into());
    }
    if rem.is_empty() {
        return Ok(());
    }
    Ok(())
}

pub fn diff(a: &impl std::fmt::Debug, b: &impl std::fmt::Debug) -> String {
    let mut x = format!("got {a:?}, expected {b:?}");
    if x.len() > 1500 {
        let mut k = 1500;
        while !x.is_char_boundary(k) {
            k -= 1;
        }
        x.truncate(k);
        x.push_str("...");
    }
    x
}

/// Compare a parse result with the model's verdict.
pub fn against<'a>(
    what: &str,
    b: &[u8],
    got: &Result<(&'a [u8], BerObject<'a>), NomErr>,
    want: &Result<Parsed, Faults>,
) -> Result<(), String> {
    match (got, want) {
        (Ok((rem, o)), Ok(p)) => {
            check_rem(b, rem, p.node.end).map_err(|e| format!("{what}: {e}"))?;
            let g = dump(o);
            let w = model_dump(b, &p.node);
            if no_raw(&g) != no_raw(&w) {
                return Err(format!("{what}: {}", diff(&no_raw(&g), &no_raw(&w))));
            }
            Ok(())
        }
        (Ok((rem, o)), Err(f)) => {
            Err(format!("{what}: accepted (rest {} bytes) as {:?}, but it must be refused ({f:?})", rem.len(), o.content))
        }
        (Err(e), Ok(p)) => {
            if p.lenient && ec(e) != EC::Incomplete {
                Ok(())
            } else {
                Err(format!("{what}: refused with {e:?}, but it is well-formed"))
            }
        }
        (Err(e), Err(f)) => {
            if fault_allows(f, ec(e)) {
                Ok(())
            } else {
                Err(format!("{what}: refused with {e:?}, expected {f:?}"))
            }
        }
    }
}
