//! Prints what the compile-time macros produced for the generated cases in $OID_CASES.
use der_parser::ber::{parse_ber_oid, parse_ber_relative_oid};
use der_parser::der::{parse_der_oid, parse_der_relative_oid};
use der_parser::oid;
use der_parser::oid::Oid;

pub struct Row {
    idx: u32,
    lib: Option<Vec<u8>>,
    raw: Option<Vec<u8>>,
    oid: Option<Oid<'static>>,
    tlv: &'static [u8],
}

include!(env!("OID_CASES"));

fn hex(v: &[u8]) -> String {
    v.iter().map(|b| format!("{b:02x}")).collect()
}

fn main() {
    let mut rows = Vec::new();
    all(&mut rows);
    use std::io::Write;
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for r in rows {
        let mut l = format!("{}", r.idx);
        match &r.lib {
            Some(v) => l += &format!(" m={}", hex(v)),
            None => {}
        }
        if let Some(v) = &r.raw {
            l += &format!(" r={}", hex(v));
        }
        if let Some(o) = &r.oid {
            l += &format!(" o={}", hex(o.as_bytes()));
            let it = match o.iter() {
                Some(i) => i.map(|x| x.to_string()).collect::<Vec<_>>().join("."),
                None => "-".into(),
            };
            l += &format!(" i={it}");
            // the identifier parsed from the standard encoding is the one the macro wrote
            let rel = r.tlv[0] == 13;
            for p in if rel { [parse_ber_relative_oid, parse_der_relative_oid] } else { [parse_ber_oid, parse_der_oid] } {
                match p(r.tlv) {
                    Ok((rem, obj)) if rem.is_empty() => match obj.as_oid() {
                        Ok(x) => {
                            let same = x == o && o == x;
                            l += &format!(" eq={same} p={}", match x.iter() {
                                Some(i) => i.map(|x| x.to_string()).collect::<Vec<_>>().join("."),
                                None => "-".into(),
                            });
                        }
                        Err(e) => l += &format!(" eq=as_oid:{e:?}").replace(' ', "_"),
                    },
                    r => l += &format!(" eq={}", format!("{r:?}").replace(' ', "_")),
                }
            }
        }
        let _ = writeln!(out, "{l}");
    }
}
