//! Describes, for every input in a file, everything the library answers about it.
//! usage: featprobe FILE          one line of digests per input
//!        featprobe FILE show N   the description of input N
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::{BerError, BerResult};
use der_parser::{ber, der};
use std::fmt::Debug;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Out {
    common: String,
    ser: String,
    big: String,
    bit: String,
}

fn put<T: Debug>(o: &mut String, what: &str, f: impl FnOnce() -> T) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => {
            let _ = write!(o, "{what}={v:?};");
        }
        Err(_) => {
            let _ = write!(o, "{what}=PANIC;");
        }
    }
}

struct Tr(String);
impl<'a> Visit<'a> for Tr {
    fn visit_ber(&mut self, b: &'_ BerObject<'a>, depth: usize) {
        let _ = write!(self.0, "{depth}:{} ", b.tag().0);
    }
}

impl<'a> VisitMut<'a> for Tr {
    fn visit_ber_mut(&mut self, b: &'_ mut BerObject<'a>, depth: usize) {
        let _ = write!(self.0, "{depth}:{} ", b.tag().0);
    }
}

fn consume(out: &mut Out, obj: &BerObject, depth: usize) {
    let o = &mut out.common;
    put(o, "obj", || format!("{obj:?}"));
    put(o, "i64", || obj.as_i64());
    put(o, "i32", || obj.as_i32());
    put(o, "u64", || obj.as_u64());
    put(o, "u32", || obj.as_u32());
    put(o, "bool", || obj.as_bool());
    put(o, "oid", || obj.as_oid().map(|x| (x.to_id_string(), x.as_bytes().to_vec())));
    put(o, "opt", || obj.as_optional().is_ok());
    put(o, "tagged", || obj.as_tagged().is_ok());
    put(o, "bits", || obj.as_bitstring_ref().map(|b| (0..80).map(|i| b.is_set(i)).collect::<Vec<_>>()));
    put(o, "slice", || obj.as_slice().map(|x| x.to_vec()));
    put(o, "str", || obj.as_str().map(|x| x.to_string()));
    put(o, "seq", || obj.as_sequence().map(|v| v.len()));
    put(o, "set", || obj.as_set().map(|v| v.len()));
    put(o, "hdr", || (obj.class(), obj.tag(), obj.length(), obj.is_constructed(), obj.header.raw_tag().map(|x| x.to_vec())));
    put(o, "pretty", || format!("{:?}", obj.as_pretty(1, 3)));
    put(o, "prettyh", || format!("{:?}", PrettyBer::new(obj, vec![PrettyPrinterFlag::ShowHeader, PrettyPrinterFlag::Recursive], 0, 2)));
    put(o, "visit", || {
        let mut t = Tr(String::new());
        Visit::run(&mut t, obj);
        t.0
    });
    put(o, "visit_mut", || {
        let mut t = Tr(String::new());
        let mut d = obj.clone();
        let p: *mut BerObject = &mut d;
        // the trait wants a borrow as long as the object's own lifetime; nothing of it is kept
        VisitMut::run(&mut t, unsafe { &mut *p });
        (t.0, d == *obj, d.content == obj.content)
    });
    put(o, "asserts", || {
        (
            obj.assert_class(Class::ContextSpecific).is_ok(),
            obj.assert_tag(Tag::Integer).is_ok(),
            obj.assert_constructed().is_ok(),
            obj.assert_primitive().is_ok(),
            obj.is_universal(),
            obj.is_private(),
        )
    });
    put(o, "index", || match &obj.content {
        BerObjectContent::Sequence(v) | BerObjectContent::Set(v) => (0..v.len().min(4)).map(|i| obj[i].tag().0).collect::<Vec<_>>(),
        _ => vec![],
    });
    put(o, "into", || obj.clone().into_iter().count());
    #[cfg(feature = "serialize")]
    {
        put(&mut out.ser, "vec", || obj.to_vec().map_err(|e| format!("{e:?}")));
        put(&mut out.ser, "explicit", || {
            cookie_factory::gen_simple(ber_encode_tagged_explicit(Tag(40), Class::Private, obj), Vec::new()).map_err(|e| format!("{e:?}"))
        });
        put(&mut out.ser, "implicit", || {
            cookie_factory::gen_simple(ber_encode_tagged_implicit(obj.tag(), Class::Application, obj), Vec::new()).map_err(|e| format!("{e:?}"))
        });
    }
    #[cfg(feature = "bigint")]
    {
        put(&mut out.big, "big", || obj.as_bigint());
        put(&mut out.big, "ubig", || obj.as_biguint());
    }
    #[cfg(feature = "as_bitvec")]
    {
        put(&mut out.bit, "bitslice", || obj.as_bitslice().map(|x| format!("{x}")));
        put(&mut out.bit, "bitstr", || obj.as_bitstring().map(|x| x.as_bitslice().map(|x| format!("{x}"))));
    }
    if depth < 3 {
        for m in obj.ref_iter().take(6 - 2 * depth) {
            consume(out, m, depth + 1);
        }
    }
}

fn res<'a>(out: &mut Out, what: &str, b: &'a [u8], f: impl FnOnce() -> BerResult<'a>) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok((rem, o))) => {
            let _ = write!(out.common, "{what}: consumed {} ", b.len() - rem.len());
            consume(out, &o, 0);
        }
        Ok(Err(e)) => {
            let _ = write!(out.common, "{what}: {e:?};");
        }
        Err(_) => {
            let _ = write!(out.common, "{what}: PANIC;");
        }
    }
}

fn plain<'a, T: Debug>(out: &mut Out, what: &str, f: impl FnOnce() -> BerResult<'a, T>) {
    put(&mut out.common, what, f)
}

fn describe(b: &[u8]) -> Out {
    let mut o = Out { common: String::new(), ser: String::new(), big: String::new(), bit: String::new() };
    let tag = Tag(b.first().map_or(0, |x| (x & 0x1f) as u32));
    res(&mut o, "parse_ber", b, || parse_ber(b));
    res(&mut o, "parse_der", b, || parse_der(b));
    for n in [0, 1, 3] {
        res(&mut o, "ber_recursive", b, || parse_ber_recursive(b, n));
        res(&mut o, "der_recursive", b, || parse_der_recursive(b, n));
    }
    res(&mut o, "ber_with_tag", b, || parse_ber_with_tag(b, tag));
    res(&mut o, "der_with_tag", b, || parse_der_with_tag(b, tag));
    plain(&mut o, "ber_any", || ber::parse_ber_any(b));
    plain(&mut o, "ber_slice", || parse_ber_slice(b, tag));
    plain(&mut o, "der_slice", || parse_der_slice(b, tag));
    plain(&mut o, "ber_i32", || parse_ber_i32(b));
    plain(&mut o, "ber_i64", || parse_ber_i64(b));
    plain(&mut o, "ber_u32", || parse_ber_u32(b));
    plain(&mut o, "ber_u64", || parse_ber_u64(b));
    plain(&mut o, "der_i32", || parse_der_i32(b));
    plain(&mut o, "der_i64", || parse_der_i64(b));
    plain(&mut o, "der_u32", || parse_der_u32(b));
    plain(&mut o, "der_u64", || parse_der_u64(b));
    plain(&mut o, "hdr", || ber_read_element_header(b).map(|(r, h)| (r, format!("{h:?}"))));
    plain(&mut o, "dhdr", || der::der_read_element_header(b).map(|(r, h)| (r, format!("{h:?}"))));
    for t in [Tag::Integer, Tag::OctetString, Tag::Sequence, Tag::BitString, Tag::Enumerated, Tag::Utf8String] {
        res(&mut o, "ber_implicit", b, || parse_ber_tagged_implicit(tag, parse_ber_content(t))(b));
        res(&mut o, "der_implicit", b, || parse_der_tagged_implicit(tag, parse_der_content(t))(b));
    }
    res(&mut o, "ber_explicit", b, || parse_ber_tagged_explicit(tag, parse_ber)(b));
    res(&mut o, "der_explicit", b, || parse_der_tagged_explicit(tag, parse_der)(b));
    res(&mut o, "ber_explicit_optional", b, || parse_ber_explicit_optional(b, tag, parse_ber));
    res(&mut o, "der_explicit_optional", b, || parse_der_explicit_optional(b, tag, parse_der));
    res(&mut o, "ber_seq_of", b, || parse_ber_sequence_of(parse_ber)(b));
    res(&mut o, "der_set_of", b, || parse_der_set_of(parse_der)(b));
    plain(&mut o, "ber_seq_of_v", || parse_ber_sequence_of_v(parse_ber_u32)(b));
    plain(&mut o, "der_set_of_v", || parse_der_set_of_v(parse_der_i64)(b));
    res(&mut o, "ber_seq_defined", b, || {
        parse_ber_sequence_defined(|i: &[u8]| {
            let (i, a) = parse_ber(i)?;
            let (i, c) = parse_ber_optional(parse_ber_integer)(i)?;
            Ok((i, vec![a, c]))
        })(b)
    });
    plain(&mut o, "der_container", || {
        parse_der_container::<_, _, BerError>(|c: &[u8], h| Ok((&c[c.len()..], (c.to_vec(), format!("{h:?}")))))(b)
    });
    built(&mut o, b);
    o
}

/// Objects that no parser made, built from the input's octets.
fn built(out: &mut Out, b: &[u8]) {
    let Some((&k, rest)) = b.split_first() else { return };
    let mut w = [0u8; 8];
    for (x, y) in w.iter_mut().rev().zip(rest.iter()) {
        *x = *y;
    }
    let mut n = u64::from_be_bytes(w);
    if rest.len() < 8 {
        // short inputs: spread over the whole width half the time
        n = match k % 4 {
            0 => n,
            1 => n.wrapping_mul(0x9e37_79b9_7f4a_7c15),
            2 => !n,
            _ => n.rotate_right(k as u32 / 4),
        };
    }
    let tag = Tag(if k & 0x80 != 0 { n as u32 } else { k as u32 });
    let text = std::str::from_utf8(rest);
    let mut list: Vec<BerObjectContent> = vec![
        BerObjectContent::Enum(n),
        BerObjectContent::Integer(rest),
        BerObjectContent::OctetString(rest),
        BerObjectContent::Boolean(k & 1 != 0),
        BerObjectContent::EndOfContent,
        BerObjectContent::Null,
        BerObjectContent::BitString(k, BitStringObject { data: rest }),
        BerObjectContent::UniversalString(rest),
        BerObjectContent::BmpString(rest),
        BerObjectContent::Optional(None),
        BerObjectContent::OID(der_parser::oid::Oid::new(rest.into())),
        BerObjectContent::RelativeOID(der_parser::oid::Oid::new_relative(rest.into())),
    ];
    if let Ok(s) = text {
        list.push(BerObjectContent::UTF8String(s));
        list.push(BerObjectContent::PrintableString(s));
        list.push(BerObjectContent::IA5String(s));
        list.push(BerObjectContent::T61String(s));
        list.push(BerObjectContent::VideotexString(s));
        list.push(BerObjectContent::GraphicString(s));
        list.push(BerObjectContent::VisibleString(s));
        list.push(BerObjectContent::GeneralString(s));
        list.push(BerObjectContent::NumericString(s));
        list.push(BerObjectContent::ObjectDescriptor(s));
    }
    let m = list.len();
    let a = BerObject::from_obj(list[(k as usize) % m].clone());
    let c = BerObject::from_obj(list[(k as usize / 16 + rest.len()) % m].clone());
    let any = der_parser::asn1_rs::Any::new(a.header.clone(), rest);
    let members = vec![a.clone(), c.clone(), a.clone()];
    let hdr = Header::new(Class::ContextSpecific, k & 1 != 0, tag, Length::Definite(rest.len()));
    let all: [BerObjectContent; 6] = [
        BerObjectContent::Sequence(members.clone()),
        BerObjectContent::Set(members[1..].to_vec()),
        BerObjectContent::Tagged(Class::ContextSpecific, tag, Box::new(a.clone())),
        BerObjectContent::Optional(Some(Box::new(c.clone()))),
        BerObjectContent::Unknown(any),
        BerObjectContent::Sequence(vec![BerObject::from_seq(members)]),
    ];
    let pick = all[(k as usize / 4).wrapping_add(n as usize) % 6].clone();
    for (i, content) in [list[0].clone(), list[(n as usize) % m].clone(), pick].into_iter().enumerate() {
        let _ = write!(out.common, "built {i}:");
        let o = if k & 2 == 0 { BerObject::from_obj(content) } else { BerObject::from_header_and_content(hdr.clone(), content) };
        consume(out, &o, 1);
    }
    let o = BerObject::from_int_slice(rest);
    consume(out, &o, 2);
}

fn digest(s: &str) -> String {
    // FNV-1a, two lanes
    let (mut a, mut b) = (0xcbf2_9ce4_8422_2325u64, 0x9ae1_6a3b_2f90_404fu64);
    for x in s.bytes() {
        a = (a ^ x as u64).wrapping_mul(0x1000_0000_01b3);
        b = (b ^ x as u64).wrapping_mul(0x1000_0000_01b3).rotate_left(5);
    }
    format!("{a:016x}{b:016x}")
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

fn main() {
    if std::env::var_os("PROBE_LOUD").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).expect("input file");
    let lines: Vec<&str> = text.lines().collect();
    if a.len() == 4 {
        let o = describe(&unhex(lines[a[3].parse::<usize>().expect("index")]));
        println!("{}\n{}\n{}\n{}", o.common, o.ser, o.big, o.bit);
        return;
    }
    let n = std::thread::available_parallelism().map_or(4, |n| n.get());
    let lines = &lines;
    let parts: Vec<Vec<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|k| {
                s.spawn(move || {
                    // every n-th line: expensive inputs stand together in the file
                    lines
                        .iter()
                        .skip(k)
                        .step_by(n)
                        .map(|l| {
                            let o = describe(&unhex(l));
                            let d = |s: &String| if s.is_empty() { "-".to_string() } else { digest(s) };
                            format!("{} {} {} {}", d(&o.common), d(&o.ser), d(&o.big), d(&o.bit))
                        })
                        .collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    let mut out = String::new();
    for i in 0..lines.len() {
        out += &parts[i % n][i / n];
        out.push('\n');
    }
    use std::io::Write;
    let _ = std::io::stdout().write_all(out.as_bytes());
}
