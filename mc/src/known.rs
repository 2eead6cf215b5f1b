//! Genuine defects that are recorded rather than repaired: each is identified by the very input and
//! history that fails.  A finding is reported as such only if /verif/known_findings lists it.
use bytecodec::bincode_codec::BincodeDecoder;
use bytecodec::fixnum::*;
use bytecodec::monolithic::*;
use bytecodec::tuple::TupleEncoder;
use bytecodec::{Decode, DecodeExt, Encode, EncodeExt, Eos, Result, SizedEncode};
use std::io::Read;

pub enum Kf {
    Listed(String),
    Unlisted(String),
}
const FILE: &str = include_str!("../../known_findings");

type F = fn() -> Option<String>;

fn all() -> Vec<(&'static str, &'static str, F)> {
    vec![
        ("C15", "KF-tuple-partial-start", tuple_partial_start),
        ("C14", "KF-collectn-reuse", collectn_reuse),
        ("C08", "KF-last-exact", last_exact),
        ("C01", "KF-monolithic-trailing", monolithic_trailing),
        ("C23", "KF-bincode-trailing", bincode_trailing),
    ]
}
/// A tuple encoder starts its components in order; the ones before a refusing one stay started.
fn tuple_partial_start() -> Option<String> {
    let mut e = TupleEncoder::new((U8Encoder::new(), U24beEncoder::new()));
    if e.start_encoding((1, 1 << 24)).is_ok() {
        return Some("an item that does not fit is accepted".into());
    }
    if e.is_idle() {
        return None;
    }
    let r = e.start_encoding((2, 3)).map_err(|e| *e.kind());
    Some(format!(
        "TupleEncoder((U8Encoder, U24beEncoder)) is not idle after refusing (1, 0x1000000) and refuses the valid item (2, 3): {r:?}"
    ))
}
/// A collectn decoder counts down and is not wound up again by finishing.
fn collectn_reuse() -> Option<String> {
    let mut d = U8Decoder::new().collectn::<Vec<u8>>(2);
    let mut got = vec![];
    let mut buf = &[1u8, 2, 3, 4][..];
    for _ in 0..2 {
        let n = d.decode(buf, Eos::new(false)).ok()?;
        buf = &buf[n..];
        got.push(d.finish_decoding().ok()?);
    }
    if got == [[1, 2], [3, 4]] {
        return None;
    }
    Some(format!("U8Decoder.collectn(2) decodes [1, 2, 3, 4] as {got:?}"))
}
/// The pending final item has no size before it is started.
fn last_exact() -> Option<String> {
    let mut e = U8Encoder::new().last(7);
    let n = e.exact_requiring_bytes();
    let mut buf = [0; 4];
    let m = e.encode(&mut buf, Eos::new(false)).ok()?;
    if n == m as u64 {
        return None;
    }
    Some(format!("U8Encoder.last(7).exact_requiring_bytes() is {n}, but {m} byte is emitted"))
}
struct One;
impl MonolithicDecode for One {
    type Item = u8;
    fn monolithic_decode<R: Read>(&self, mut reader: R) -> Result<u8> {
        let mut b = [0];
        reader.read_exact(&mut b).map_err(bytecodec::Error::from)?;
        Ok(b[0])
    }
}
fn trailing(mut one: impl Decode, mut two: impl Decode, bytes: &[u8], what: &str) -> Option<String> {
    let a = one.decode(bytes, Eos::new(true)).ok()?;
    let k = bytes.len();
    let b = two.decode(bytes, Eos::new(false)).ok()? + two.decode(&[], Eos::new(true)).ok()?;
    if a == b {
        return None;
    }
    Some(format!("{what} consumes {a} of the {k} bytes {bytes:?} in one call, {b} if the end is announced in a second call"))
}
fn monolithic_trailing() -> Option<String> {
    trailing(MonolithicDecoder::new(One), MonolithicDecoder::new(One), &[1, 2, 3], "MonolithicDecoder of a one-byte codec")
}
fn bincode_trailing() -> Option<String> {
    trailing(BincodeDecoder::<u8>::new(), BincodeDecoder::<u8>::new(), &[1, 2, 3], "BincodeDecoder::<u8>")
}
pub fn run(id: &str) -> Vec<Kf> {
    let mut v = vec![];
    for (p, key, f) in all() {
        if p != id {
            continue;
        }
        let r = std::panic::catch_unwind(f).unwrap_or_else(|_| Some("panic".into()));
        if let Some(m) = r {
            let listed = FILE.lines().any(|l| {
                let mut w = l.split_whitespace();
                w.next() == Some("known:") && w.next() == Some(&format!("property={p}")) && w.next() == Some(&format!("key={key}"))
            });
            let m = format!("{key}: {m}");
            v.push(if listed { Kf::Listed(m) } else { Kf::Unlisted(m) });
        }
    }
    v
}
