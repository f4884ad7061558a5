//! Tables of the library's entry points.
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::BerResult;

pub type P = for<'a> fn(&'a [u8]) -> BerResult<'a>;

pub struct Typed {
    pub tag: u32,
    pub name: &'static str,
    pub ber: P,
    pub der: P,
}

macro_rules! typed {
    ($($tag:expr, $b:ident, $d:ident;)*) => {
        pub const TYPED: &[Typed] = &[$(Typed { tag: $tag, name: stringify!($b), ber: $b, der: $d }),*];
    };
}

typed! {
    0, parse_ber_endofcontent, parse_der_endofcontent;
    1, parse_ber_bool, parse_der_bool;
    2, parse_ber_integer, parse_der_integer;
    3, parse_ber_bitstring, parse_der_bitstring;
    4, parse_ber_octetstring, parse_der_octetstring;
    5, parse_ber_null, parse_der_null;
    6, parse_ber_oid, parse_der_oid;
    7, parse_ber_objectdescriptor, parse_der_objectdescriptor;
    10, parse_ber_enum, parse_der_enum;
    12, parse_ber_utf8string, parse_der_utf8string;
    13, parse_ber_relative_oid, parse_der_relative_oid;
    16, parse_ber_sequence, parse_der_sequence;
    17, parse_ber_set, parse_der_set;
    18, parse_ber_numericstring, parse_der_numericstring;
    19, parse_ber_printablestring, parse_der_printablestring;
    20, parse_ber_t61string, parse_der_t61string;
    21, parse_ber_videotexstring, parse_der_videotexstring;
    22, parse_ber_ia5string, parse_der_ia5string;
    23, parse_ber_utctime, parse_der_utctime;
    24, parse_ber_generalizedtime, parse_der_generalizedtime;
    25, parse_ber_graphicstring, parse_der_graphicstring;
    26, parse_ber_visiblestring, parse_der_visiblestring;
    27, parse_ber_generalstring, parse_der_generalstring;
    28, parse_ber_universalstring, parse_der_universalstring;
    30, parse_ber_bmpstring, parse_der_bmpstring;
    26, parse_ber_visiblestring, vis_alias;
}

#[allow(deprecated)]
fn vis_alias(i: &[u8]) -> BerResult<'_> {
    visiblestring(i)
}

pub fn typed(tag: u32) -> Option<&'static Typed> {
    TYPED.iter().find(|t| t.tag == tag)
}

/// one generic parser of each family
pub fn generic(i: &[u8], der: bool) -> BerResult<'_> {
    if der {
        parse_der(i)
    } else {
        parse_ber(i)
    }
}

pub fn recursive(i: &[u8], n: usize, der: bool) -> BerResult<'_> {
    if der {
        parse_der_recursive(i, n)
    } else {
        parse_ber_recursive(i, n)
    }
}

pub fn with_tag(i: &[u8], tag: u32, der: bool) -> BerResult<'_> {
    if der {
        parse_der_with_tag(i, Tag(tag))
    } else {
        parse_ber_with_tag(i, Tag(tag))
    }
}

pub fn header(i: &[u8], der: bool) -> BerResult<'_, Header<'_>> {
    if der {
        der_read_element_header(i)
    } else {
        ber_read_element_header(i)
    }
}

pub fn content_as<'a>(i: &'a [u8], tag: u32, h: &Header, n: usize, der: bool) -> BerResult<'a, BerObjectContent<'a>> {
    let (t, l, c) = (Tag(tag), h.length(), h.is_constructed());
    if der {
        der_read_element_content_as(i, t, l, c, n)
    } else {
        ber_read_element_content_as(i, t, l, c, n)
    }
}

pub fn slice_of(i: &[u8], tag: u32, der: bool) -> BerResult<'_, &[u8]> {
    if der {
        parse_der_slice(i, Tag(tag))
    } else {
        parse_ber_slice(i, Tag(tag))
    }
}

fn grab<'a>(c: &'a [u8], h: Header<'a>) -> BerResult<'a, (&'a [u8], Header<'a>)> {
    Ok((&c[c.len()..], (c, h)))
}

pub fn container(i: &[u8], der: bool) -> BerResult<'_, (&[u8], Header<'_>)> {
    if der {
        parse_der_container(grab)(i)
    } else {
        parse_ber_container(grab)(i)
    }
}
