//! Owned model trees from which objects are built with the library's constructors.
use crate::cmp::{class_of, text_name, D, DC, DH};
use crate::engine::Src;
use crate::gen;
use crate::refm::*;
use der_parser::asn1_rs::{ASN1DateTime, ASN1TimeZone, Any, Header, Length, Oid, Tag};
use der_parser::ber::{BerObject, BerObjectContent as C, BitStringObject};

#[derive(Clone, Debug, PartialEq)]
pub struct N {
    /// None: the default header of `from_obj`
    pub h: Option<DH>,
    pub t: T,
}

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Eoc,
    Null,
    Bool(bool),
    Int(Vec<u8>),
    Bits(u8, Vec<u8>),
    Octets(Vec<u8>),
    Enum(u64),
    Oid(Vec<u8>),
    RelOid(Vec<u8>),
    Text(u32, String),
    Bmp(Vec<u8>),
    Univ(Vec<u8>),
    Seq(Vec<N>),
    Set(Vec<N>),
    Utc(Time),
    Gen(Time),
    Opt(Option<Box<N>>),
    Tagged(u8, u32, Box<N>),
    Unknown(DH, Vec<u8>),
}

impl T {
    pub fn tag(&self) -> u32 {
        match self {
            T::Eoc => 0,
            T::Null => T_NULL,
            T::Bool(_) => T_BOOL,
            T::Int(_) => T_INT,
            T::Bits(..) => T_BITS,
            T::Octets(_) => T_OCTETS,
            T::Enum(_) => T_ENUM,
            T::Oid(_) => T_OID,
            T::RelOid(_) => T_RELOID,
            T::Text(t, _) => *t,
            T::Bmp(_) => T_BMP,
            T::Univ(_) => T_UNIVERSAL,
            T::Seq(_) => T_SEQ,
            T::Set(_) => T_SET,
            T::Utc(_) => T_UTC,
            T::Gen(_) => T_GENTIME,
            T::Opt(Some(x)) => x.t.tag(),
            T::Opt(None) => 0,
            T::Tagged(_, t, _) => *t,
            T::Unknown(h, _) => h.tag,
        }
    }
}

fn time(s: &mut Src, gen: bool) -> Time {
    let tz = match s.weighted(&[4, 3, if gen { 2 } else { 0 }]) {
        0 => Tz::Z,
        1 => {
            let h = s.below(47) as i8 - 23;
            let m = s.below(60) as i8;
            if h == 0 && m > 0 && s.chance(1, 2) {
                Tz::Off(0, -m)
            } else {
                Tz::Off(h, m)
            }
        }
        _ => Tz::None,
    };
    Time {
        year: if gen { if s.chance(1, 8) { s.lit(10000) as u32 } else { s.below(10000) as u32 } } else { s.below(100) as u32 },
        month: s.range(1, 12) as u8,
        day: s.range(1, 31) as u8,
        hour: s.below(24) as u8,
        minute: s.below(60) as u8,
        second: s.below(60) as u8,
        ms: if gen && s.chance(1, 2) { Some(*s.pick(&[0u16, 1, 10, 100, 120, 123, 500, 999, 7, 70])) } else { None },
        tz,
    }
}

pub fn header(s: &mut Src, cons: bool) -> DH {
    DH {
        class: s.below(4) as u8,
        cons: if s.chance(1, 6) { !cons } else { cons },
        tag: gen::other_tag(s),
        len: match s.weighted(&[4, 2, 1]) {
            0 => Len::Def(s.usize(300)),
            1 if s.chance(1, 6) => Len::Def(s.lit(1 << 32) as usize),
            1 => Len::Def(*s.pick(&[0usize, 127, 128, 65535, 65536, 1 << 24])),
            _ => Len::Indef,
        },
        raw: None,
    }
}

/// `own_header`: per-mille probability of a header unrelated to the content; `wraps`: allow
/// optional, tagged and unknown nodes
pub fn node(s: &mut Src, depth: usize, own_header: u64, wraps: bool) -> N {
    let deep = depth > 0;
    let t = match s.weighted(&[16, if deep { 8 } else { 0 }, if wraps { 3 } else { 0 }]) {
        0 => leaf(s),
        1 => {
            let n = match s.weighted(&[6, 1]) {
                0 => s.usize(4),
                _ => s.usize(9),
            };
            let v: Vec<N> = (0..n).map(|_| node(s, depth - 1, own_header, wraps)).collect();
            if s.chance(1, 3) {
                T::Set(v)
            } else {
                T::Seq(v)
            }
        }
        _ => match s.below(4) {
            0 => T::Opt(None),
            1 => T::Opt(Some(Box::new(node(s, depth.saturating_sub(1), own_header, wraps)))),
            2 => {
                let c = *s.pick(&[2u8, 1, 3]);
                let t = gen::other_tag(s);
                T::Tagged(c, t, Box::new(node(s, depth.saturating_sub(1), own_header, wraps)))
            }
            _ => {
                let b = if s.chance(1, 12) {
                    gen::content(s)
                } else {
                    let n = s.usize(9);
                    s.bytes(n)
                };
                let h = DH { len: Len::Def(b.len()), ..header(s, false) };
                T::Unknown(h, b)
            }
        },
    };
    let cons = matches!(t, T::Seq(_) | T::Set(_));
    let h = if own_header > 0 && s.chance(own_header, 1000) { Some(header(s, cons)) } else { None };
    N { h, t }
}

pub fn leaf(s: &mut Src) -> T {
    let cfg = gen::BER;
    match *s.pick(&gen::LEAVES) {
        T_NULL => {
            if s.chance(1, 6) {
                T::Eoc
            } else {
                T::Null
            }
        }
        T_BOOL => T::Bool(s.chance(1, 2)),
        T_INT => T::Int(gen::int_content(s, false)),
        T_BITS => {
            let c = gen::bit_content(s);
            T::Bits(c[0], c[1..].to_vec())
        }
        T_OCTETS => T::Octets(gen::leaf_content(s, T_OCTETS, &cfg, false)),
        T_ENUM => T::Enum(match s.below(3) {
            0 => s.below(300),
            1 if s.chance(1, 6) => s.lit(1 << 32),
            1 => *s.pick(&[0u64, 1, 127, 128, 255, 256, 65535, 65536, 1 << 24, (1 << 32) - 1, (1 << 31)]),
            _ => s.below(1 << 32),
        }),
        T_OID => T::Oid(gen::oid_content(s)),
        T_RELOID => T::RelOid(gen::oid_content(s)),
        T_BMP => T::Bmp(gen::text_content(s, T_BMP, false)),
        T_UNIVERSAL => T::Univ(gen::text_content(s, T_UNIVERSAL, false)),
        T_UTC => T::Utc(time(s, false)),
        T_GENTIME => T::Gen(time(s, true)),
        t => T::Text(t, String::from_utf8(gen::text_content(s, t, false)).unwrap_or_default()),
    }
}

pub fn asn1_time(t: &Time) -> ASN1DateTime {
    let tz = match t.tz {
        Tz::None => ASN1TimeZone::Undefined,
        Tz::Z => ASN1TimeZone::Z,
        Tz::Off(h, m) => ASN1TimeZone::Offset(h, m),
    };
    ASN1DateTime::new(t.year, t.month, t.day, t.hour, t.minute, t.second, t.ms, tz)
}

pub fn lib_header(h: &DH) -> Header<'static> {
    let len = match h.len {
        Len::Def(n) => Length::Definite(n),
        Len::Indef => Length::Indefinite,
    };
    Header::new(class_of(h.class), h.cons, Tag(h.tag), len)
}

pub fn content(t: &T) -> C<'_> {
    match t {
        T::Eoc => C::EndOfContent,
        T::Null => C::Null,
        T::Bool(b) => C::Boolean(*b),
        T::Int(v) => C::Integer(v),
        T::Bits(u, v) => C::BitString(*u, BitStringObject { data: v }),
        T::Octets(v) => C::OctetString(v),
        T::Enum(x) => C::Enum(*x),
        T::Oid(v) => C::OID(Oid::new(v.as_slice().into())),
        T::RelOid(v) => C::RelativeOID(Oid::new_relative(v.as_slice().into())),
        T::Text(tag, x) => match *tag {
            T_NUMERIC => C::NumericString(x),
            T_VISIBLE => C::VisibleString(x),
            T_PRINTABLE => C::PrintableString(x),
            T_IA5 => C::IA5String(x),
            T_UTF8 => C::UTF8String(x),
            T_T61 => C::T61String(x),
            T_VIDEOTEX => C::VideotexString(x),
            T_OBJDESC => C::ObjectDescriptor(x),
            T_GRAPHIC => C::GraphicString(x),
            _ => C::GeneralString(x),
        },
        T::Bmp(v) => C::BmpString(v),
        T::Univ(v) => C::UniversalString(v),
        T::Seq(v) => C::Sequence(v.iter().map(build).collect()),
        T::Set(v) => C::Set(v.iter().map(build).collect()),
        T::Utc(t) => C::UTCTime(asn1_time(t)),
        T::Gen(t) => C::GeneralizedTime(asn1_time(t)),
        T::Opt(o) => C::Optional(o.as_ref().map(|x| Box::new(build(x)))),
        T::Tagged(c, t, x) => C::Tagged(class_of(*c), Tag(*t), Box::new(build(x))),
        T::Unknown(h, v) => C::Unknown(Any::new(lib_header(h), v)),
    }
}

/// build the object with the library's constructors
pub fn build(n: &N) -> BerObject<'_> {
    match (&n.h, &n.t) {
        (Some(h), t) => BerObject::from_header_and_content(lib_header(h), content(t)),
        (None, T::Seq(v)) if v.len() % 2 == 0 => BerObject::from_seq(v.iter().map(build).collect()),
        (None, T::Set(v)) if v.len() % 2 == 0 => BerObject::from_set(v.iter().map(build).collect()),
        (None, T::Int(v)) if v.len() % 2 == 0 => BerObject::from_int_slice(v),
        (None, t) => BerObject::from_obj(content(t)),
    }
}

pub fn dump_t(t: &T) -> DC {
    match t {
        T::Eoc => DC::Raw("eoc", vec![]),
        T::Null => DC::Raw("null", vec![]),
        T::Bool(b) => DC::Bool(*b),
        T::Int(v) => DC::Raw("int", v.clone()),
        T::Bits(u, v) => DC::Bits(*u, v.clone()),
        T::Octets(v) => DC::Raw("octets", v.clone()),
        T::Enum(x) => DC::Enum(*x),
        T::Oid(v) => DC::Oid(false, v.clone(), false),
        T::RelOid(v) => DC::Oid(true, v.clone(), false),
        T::Text(t, x) => DC::Text(text_name(*t), x.clone()),
        T::Bmp(v) => DC::Raw("bmp", v.clone()),
        T::Univ(v) => DC::Raw("universal", v.clone()),
        T::Seq(v) => DC::List("seq", v.iter().map(dump_n).collect()),
        T::Set(v) => DC::List("set", v.iter().map(dump_n).collect()),
        T::Utc(t) => DC::Time("utc", t.clone()),
        T::Gen(t) => DC::Time("gen", t.clone()),
        T::Opt(o) => DC::Opt(o.as_ref().map(|x| Box::new(dump_n(x)))),
        T::Tagged(c, t, x) => DC::Tagged(*c, *t, Box::new(dump_n(x))),
        T::Unknown(h, v) => DC::Unknown(h.clone(), v.clone()),
    }
}

/// expected description (the length of default headers is not specified: use cmp::values)
pub fn dump_n(n: &N) -> D {
    let h = n.h.clone().unwrap_or(DH {
        class: 0,
        cons: matches!(n.t.tag(), T_SEQ | T_SET),
        tag: n.t.tag(),
        len: Len::Def(0),
        raw: None,
    });
    D { h, c: dump_t(&n.t) }
}
