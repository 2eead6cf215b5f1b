//! C26: boxes, references, trait objects, transparent wrappers and accessors.
use crate::core::*;
use crate::drive::{bc, finite};
use crate::props::frame::{PD, PE};
use crate::val::*;
use bytecodec::bincode_codec::*;
use bytecodec::bytes::*;
use bytecodec::combinator::*;
use bytecodec::fixnum::*;
use bytecodec::json_codec::*;
use bytecodec::monolithic::*;
use bytecodec::null::*;
use bytecodec::padding::*;
use bytecodec::tuple::*;
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, Error, ErrorKind, Result, SizedEncode, TaggedDecode, TryTaggedDecode};
use std::fmt::Debug;
use std::io::{Read, Write};

pub fn c26(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    b.push("decoders: 24 decoders x 21 ways of wrapping, twins run in lockstep over every sequence of 4 (5) calls out of 26 (decode of 0/1/2/3/5/8 bytes with 4 announcements, finish, look), two byte patterns, up to three items".into());
    b.push("encoders: 17 encoders x 20 ways of wrapping, every sequence of 4 (6) calls (start of 2 items, encode of 0/1/2/5 bytes with 3 announcements)".into());
    b.push("tagged decoders through references, boxes and trait objects: every sequence of 4 calls, every tag; errors of 7 kinds".into());
    b.push("inner_ref, inner_mut, into_inner of all 27 wrappers at every point of an item; peek and peek_mut; constructors (default, with_item, chain)".into());
    let mut us = vec![];
    decoders(&mut us, 4 + usize::from(th));
    encoders(&mut us, 4 + 2 * usize::from(th));
    us.push(unit("tagged", tagged));
    us.push(unit("tried tags", tried));
    us.push(unit("decoder accessors", dec_access));
    us.push(unit("encoder accessors", enc_access));
    us.push(unit("peeking", peeking));
    us.push(unit("owned codecs", bytes_access));
    us
}

// ---------------------------------------------------------------- decoders

/// A decoder whose readiness cannot be guessed from its requirement.
#[derive(Debug, Default, Clone)]
struct Odd {
    got: Vec<u8>,
    ready: bool,
}
impl Decode for Odd {
    type Item = Vec<u8>;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        if self.ready {
            return Ok(0);
        }
        let n = buf.len().min(2 - self.got.len().min(2));
        self.got.extend(&buf[..n]);
        self.ready = self.got.len() == 2 || eos.is_reached() && !self.got.is_empty();
        if !self.ready && eos.is_reached() {
            return Err(err(ErrorKind::DecoderTerminated));
        }
        Ok(n)
    }
    fn finish_decoding(&mut self) -> Result<Vec<u8>> {
        if !self.ready {
            return Err(err(ErrorKind::IncompleteDecoding));
        }
        self.ready = false;
        Ok(std::mem::take(&mut self.got))
    }
    fn requiring_bytes(&self) -> ByteCount {
        // not what the default of `is_idle` would want
        [ByteCount::Unknown, ByteCount::Infinite, ByteCount::Unknown][self.got.len().min(2)]
    }
    fn is_idle(&self) -> bool {
        self.ready
    }
}
/// A decoder with the default `is_idle`.
#[derive(Debug, Default, Clone)]
struct Plain(Vec<u8>);
impl Decode for Plain {
    type Item = Vec<u8>;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        let n = buf.len().min(3 - self.0.len());
        self.0.extend(&buf[..n]);
        if self.0.len() < 3 && eos.is_reached() {
            return Err(err(ErrorKind::UnexpectedEos));
        }
        Ok(n)
    }
    fn finish_decoding(&mut self) -> Result<Vec<u8>> {
        if self.0.len() < 3 {
            return Err(err(ErrorKind::IncompleteDecoding));
        }
        Ok(std::mem::take(&mut self.0))
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(3 - self.0.len() as u64)
    }
}

const SIZES: [usize; 6] = [1, 2, 0, 3, 5, 8];
fn announcements() -> [Eos; 4] {
    [Eos::new(false), Eos::new(true), finite(1), finite(600)]
}
/// Offered bytes by position.
fn byte(pattern: usize, at: usize) -> u8 {
    match pattern {
        0 => [2, 0, 1, 7, 0x30, 3][at % 6],
        _ => b"1 [] \xC3\xA92"[at % 8],
    }
}
/// Runs two decoders through the same calls.
fn twins_d<T: PartialEq + Debug>(ch: &mut Ch, a: &mut dyn Decode<Item = T>, b: &mut dyn Decode<Item = T>, depth: usize, text: bool) -> Case {
    let pattern = ch.pick(1 + usize::from(!text));
    let pattern = if text { 0 } else { pattern };
    let look = |a: &dyn Decode<Item = T>, b: &dyn Decode<Item = T>| -> Case {
        let x = (a.is_idle(), bc(a.requiring_bytes()));
        let y = (b.is_idle(), bc(b.requiring_bytes()));
        if x != y {
            return Err(format!("(idle, requiring): directly {x:?}, wrapped {y:?}"));
        }
        Ok(())
    };
    look(a, b)?;
    let mut off = 0;
    for _ in 0..depth {
        let k = ch.pick(25);
        ch.steps(2);
        if k == 0 {
            let (x, y) = (a.finish_decoding(), b.finish_decoding());
            ch.log(|| format!("finish -> {} / {}", res(&x), res(&y)));
            match (&x, &y) {
                (Ok(u), Ok(v)) if u == v => {}
                (Err(u), Err(v)) if u.kind() == v.kind() => {
                    if *u.kind() != ErrorKind::IncompleteDecoding {
                        break;
                    }
                }
                _ => return Err(format!("finish_decoding: directly {}, wrapped {}", res(&x), res(&y))),
            }
        } else {
            let (n, eos) = (SIZES[(k - 1) / 4], announcements()[(k - 1) % 4]);
            let buf: Vec<u8> = (off..off + n).map(|i| byte(pattern, i)).collect();
            let (x, y) = (a.decode(&buf, eos), b.decode(&buf, eos));
            ch.log(|| format!("decode({n}, {eos:?}) -> {} / {}", res(&x), res(&y)));
            match (&x, &y) {
                (Ok(u), Ok(v)) if u == v => off += u,
                (Err(u), Err(v)) if u.kind() == v.kind() => break,
                _ => return Err(format!("decode({n}, {eos:?}): directly {}, wrapped {}", res(&x), res(&y))),
            }
        }
        ch.state(&(off, k, a.is_idle()));
        look(a, b)?;
    }
    ch.outcome(&(off, a.is_idle()));
    ch.valid();
    Ok(())
}
const DWRAPS: [&str; 21] = [
    "Box", "&mut", "Box<dyn>", "&mut dyn", "Box<Box>", "&mut &mut", "&mut Box<dyn>", "map", "map_err", "slice", "max_bytes", "omit(false)", "peekable",
    "try_map", "map over &mut", "map_err(kind)", "max over slice", "omit over &mut", "map_err over map", "omit set and unset", "two",
];
fn wrapped_d<T, D>(ch: &mut Ch, make: &dyn Fn() -> D, w: usize, depth: usize, text: bool) -> Case
where
    T: PartialEq + Debug + 'static,
    D: Decode<Item = T> + 'static,
{
    let mut a = make();
    let mut x = make();
    macro_rules! go {
        ($e:expr) => {{
            #[allow(unused_mut)]
            let mut y = $e;
            twins_d(ch, &mut a, &mut y, depth, text)
        }};
    }
    let some = |o: Option<T>| o.expect("an item is omitted");
    match w {
        0 => go!(Box::new(x)),
        1 => go!(&mut x),
        2 => {
            let y: Box<dyn Decode<Item = T>> = Box::new(x);
            go!(y)
        }
        3 => {
            let y: &mut dyn Decode<Item = T> = &mut x;
            go!(y)
        }
        4 => go!(Box::new(Box::new(x))),
        5 => {
            let mut r = &mut x;
            go!(&mut r)
        }
        6 => {
            let mut y: Box<dyn Decode<Item = T>> = Box::new(x);
            go!(&mut y)
        }
        7 => go!(x.map(|v| v)),
        8 => go!(x.map_err(|e| e)),
        9 => {
            let mut s = x.slice();
            s.set_consumable_bytes(u64::MAX);
            go!(s)
        }
        10 => go!(x.max_bytes(u64::MAX)),
        11 => go!(x.omit(false).map(some)),
        12 => go!(x.peekable()),
        13 => go!(x.try_map(Ok::<T, Error>)),
        14 => go!((&mut x).map(|v| v)),
        15 => go!(x.map_err(|e: Error| *e.kind())),
        16 => {
            let mut s = x.slice();
            s.set_consumable_bytes(1 << 40);
            go!(s.max_bytes(1 << 40))
        }
        17 => go!((&mut x).omit(false).map(some)),
        18 => go!(x.map(|v| v).map_err(|e| e)),
        19 => {
            let mut o = x.omit(true);
            if !o.will_omit() || !o.is_idle() {
                return Err("omit(true) does not omit".into());
            }
            o.do_omit(false);
            if o.will_omit() {
                return Err("still omitting".into());
            }
            go!(o.map(some))
        }
        // the same decoder built twice behaves the same
        _ => go!(x),
    }
}
fn decoders(us: &mut Vec<Unit>, depth: usize) {
    macro_rules! d {
        ($($name:expr, $peek:expr, $text:expr, $e:expr;)*) => {$(
            for (w, wn) in DWRAPS.iter().enumerate() {
                if w == 12 && !$peek {
                    continue;
                }
                us.push(unit(format!("decoder {} in {wn}", $name), move |ch| wrapped_d(ch, &|| $e, w, depth, $text)));
            }
        )*};
    }
    // Peeking takes the item in the call that completes it, so a decoder whose item is refused at the
    // end fails one call earlier, and one that is ready from the start is not until it is called.
    d! {
        "u8", true, true, U8Decoder::new();
        "u16be", true, true, U16beDecoder::new();
        "f32le", true, true, I32leDecoder::new();
        "u64be", true, true, U64beDecoder::new();
        "array", true, true, CopyableBytesDecoder::new([0; 3]);
        "bytes", false, true, BytesDecoder::new(vec![0; 3]);
        "rest", true, true, RemainingBytesDecoder::new();
        "utf8", false, false, Utf8Decoder::new();
        "padding", true, true, PaddingDecoder::new(None);
        "padding 2", true, true, PaddingDecoder::new(Some(2));
        "null", false, true, NullDecoder;
        "json", true, false, JsonDecoder::<serde_json::Value>::new();
        "bincode", true, true, BincodeDecoder::<u16>::new();
        "tuple", true, true, TupleDecoder::new((U8Decoder::new(), U16leDecoder::new()));
        "tuple3", true, true, TupleDecoder::new((U8Decoder::new(), U8Decoder::new(), RemainingBytesDecoder::new()));
        "and_then", true, true, U8Decoder::new().and_then(|n| RemainingBytesDecoder::new().length(u64::from(n)));
        "collect", true, true, U16beDecoder::new().collect::<Vec<_>>();
        "collectn", false, true, U8Decoder::new().collectn::<Vec<_>>(2);
        "length", true, true, RemainingBytesDecoder::new().length(3);
        "limit", false, true, RemainingBytesDecoder::new().max_bytes(3);
        "try_map", false, true, U8Decoder::new().try_map(|n| if n == 0 { Err(ErrorKind::InvalidInput) } else { Ok(n) });
        "maybe_eos", true, true, U16beDecoder::new().maybe_eos();
        "odd", false, true, Odd::default();
        "plain", true, true, Plain::default();
    }
    // constructors
    macro_rules! c {
        ($($name:expr, $a:expr, $b:expr;)*) => {$(
            us.push(unit(format!("decoder constructor {}", $name), move |ch| {
                let (mut a, mut b) = ($a, $b);
                twins_d(ch, &mut a, &mut b, depth - 1, true)
            }));
        )*};
    }
    c! {
        "chain", TupleDecoder::new((U8Decoder::new(), U16beDecoder::new())), U8Decoder::new().chain(U16beDecoder::new());
        "collect", U16beDecoder::new().collect::<Vec<u16>>(), Collect::<U16beDecoder, Vec<u16>>::default();
        "peekable", U16beDecoder::new().peekable(), Peekable::<U16beDecoder>::default();
        "maybe_eos", U16beDecoder::new().maybe_eos(), MaybeEos::<U16beDecoder>::default();
        "omit", U16beDecoder::new().omit(false), Omittable::<U16beDecoder>::default();
        "length", NullDecoder.length(0), Length::<NullDecoder>::default();
        "tuple", TupleDecoder::new((U8Decoder::new(), U8Decoder::new())), TupleDecoder::<(U8Decoder, U8Decoder)>::default();
        "collectn", U8Decoder::new().collectn::<Vec<u8>>(0), CollectN::<U8Decoder, Vec<u8>>::default();
        "limit", U8Decoder::new().max_bytes(0), MaxBytes::<U8Decoder>::default();
        "slice", U8Decoder::new().slice(), Slice::<U8Decoder>::default();
        "rest", RemainingBytesDecoder::new(), RemainingBytesDecoder::default();
        "utf8", Utf8Decoder::new(), Utf8Decoder::<RemainingBytesDecoder>::default();
        "utf8 of", Utf8Decoder::new(), Utf8Decoder::with_bytes_decoder(RemainingBytesDecoder::new());
        "bytes set", BytesDecoder::new(vec![0; 2]), { let mut d = BytesDecoder::default(); d.set_bytes(vec![0; 2]); d };
        "array", CopyableBytesDecoder::new([0; 2]), CopyableBytesDecoder::<[u8; 2]>::default();
        "padding", PaddingDecoder::new(None), PaddingDecoder::default();
        "json", JsonDecoder::<u8>::new(), JsonDecoder::<u8>::default();
        "bincode", BincodeDecoder::<u8>::new(), BincodeDecoder::<u8>::default();
        "u24", U24beDecoder::new(), U24beDecoder::default();
    }
}

// ---------------------------------------------------------------- encoders

/// An encoder whose readiness cannot be guessed from its requirement.
#[derive(Debug, Default, Clone)]
struct OddE(Vec<u8>, bool);
impl Encode for OddE {
    type Item = u8;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        if !self.1 {
            return Ok(0);
        }
        let n = buf.len().min(self.0.len());
        for (b, v) in buf.iter_mut().zip(self.0.drain(..n)) {
            *b = v;
        }
        self.1 = !self.0.is_empty();
        if self.1 && eos.is_reached() {
            return Err(err(ErrorKind::DecoderTerminated));
        }
        Ok(n)
    }
    fn start_encoding(&mut self, item: u8) -> Result<()> {
        if self.1 {
            return Err(err(ErrorKind::EncoderFull));
        }
        if item == 200 {
            return Err(err(ErrorKind::InconsistentState));
        }
        *self = OddE(vec![item, 1, 2], true);
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        [ByteCount::Unknown, ByteCount::Infinite, ByteCount::Finite(0), ByteCount::Unknown][self.0.len()]
    }
    fn is_idle(&self) -> bool {
        !self.1
    }
}
impl SizedEncode for OddE {
    fn exact_requiring_bytes(&self) -> u64 {
        40 + self.0.len() as u64
    }
}
const ESIZES: [usize; 4] = [1, 2, 0, 5];
fn twins_e<T: Clone + Debug>(
    ch: &mut Ch,
    a: &mut dyn Encode<Item = T>,
    b: &mut dyn Encode<Item = T>,
    items: &[T],
    depth: usize,
    exact: &dyn Fn(&mut dyn Encode<Item = T>, &mut dyn Encode<Item = T>) -> Case,
) -> Case {
    let mut out = 0;
    for i in 0..=depth {
        let x = (a.is_idle(), bc(a.requiring_bytes()));
        let y = (b.is_idle(), bc(b.requiring_bytes()));
        if x != y {
            return Err(format!("(idle, requiring): directly {x:?}, wrapped {y:?}"));
        }
        exact(a, b)?;
        if i == depth {
            break;
        }
        let k = ch.pick(12 + items.len());
        ch.steps(2);
        if k < items.len() {
            let busy = !a.is_idle();
            let (x, y) = (a.start_encoding(items[k].clone()), b.start_encoding(items[k].clone()));
            ch.log(|| format!("start({:?}) -> {} / {}", items[k], res(&x), res(&y)));
            match (&x, &y) {
                (Ok(()), Ok(())) => {}
                (Err(u), Err(v)) if u.kind() == v.kind() => {
                    if *u.kind() != ErrorKind::EncoderFull {
                        break;
                    }
                }
                // refused for either of two reasons: being busy, and the item
                (Err(u), Err(v)) if busy && (*u.kind() == ErrorKind::EncoderFull || *v.kind() == ErrorKind::EncoderFull) => break,
                _ => return Err(format!("start_encoding: directly {}, wrapped {}", res(&x), res(&y))),
            }
        } else {
            let k = k - items.len();
            let (n, eos) = (ESIZES[k / 3], [Eos::new(false), Eos::new(true), finite(2)][k % 3]);
            let (mut p, mut q) = (vec![0xEE; n], vec![0xEE; n]);
            let (x, y) = (a.encode(&mut p, eos), b.encode(&mut q, eos));
            ch.log(|| format!("encode({n}, {eos:?}) -> {} {p:?} / {} {q:?}", res(&x), res(&y)));
            match (&x, &y) {
                (Ok(u), Ok(v)) if u == v && p == q => out += u,
                (Err(u), Err(v)) if u.kind() == v.kind() => break,
                _ => return Err(format!("encode({n}, {eos:?}): directly {} {p:?}, wrapped {} {q:?}", res(&x), res(&y))),
            }
        }
        ch.state(&(out, k, a.is_idle()));
    }
    ch.outcome(&(out, a.is_idle()));
    ch.valid();
    Ok(())
}
const EWRAPS: [&str; 20] = [
    "Box", "&mut", "Box<dyn>", "&mut dyn", "Box<Box>", "&mut &mut", "&mut Box<dyn>", "map_from", "try_map_from", "map_err", "slice", "max_bytes",
    "optional", "map_from over &mut", "map_err(kind)", "optional over slice", "max_bytes over map_err", "map_from over map_from", "slice over &mut", "two",
];
fn none<T>(_: &mut dyn Encode<Item = T>, _: &mut dyn Encode<Item = T>) -> Case {
    Ok(())
}
fn wrapped_e<T, E>(ch: &mut Ch, make: &dyn Fn() -> E, items: &[T], w: usize, depth: usize) -> Case
where
    T: Clone + Debug + 'static,
    E: Encode<Item = T> + 'static,
{
    let mut a = make();
    let mut x = make();
    macro_rules! go {
        ($e:expr) => {{
            #[allow(unused_mut)]
            let mut y = $e;
            twins_e(ch, &mut a, &mut y, items, depth, &none)
        }};
    }
    match w {
        0 => go!(Box::new(x)),
        1 => go!(&mut x),
        2 => {
            let y: Box<dyn Encode<Item = T>> = Box::new(x);
            go!(y)
        }
        3 => {
            let y: &mut dyn Encode<Item = T> = &mut x;
            go!(y)
        }
        4 => go!(Box::new(Box::new(x))),
        5 => {
            let mut r = &mut x;
            go!(&mut r)
        }
        6 => {
            let mut y: Box<dyn Encode<Item = T>> = Box::new(x);
            go!(&mut y)
        }
        7 => go!(x.map_from(|v: T| v)),
        8 => go!(x.try_map_from(Ok::<T, Error>)),
        9 => go!(x.map_err(|e| e)),
        10 => {
            let mut s = x.slice();
            s.set_consumable_bytes(u64::MAX);
            go!(s)
        }
        11 => go!(x.max_bytes(u64::MAX)),
        12 => go!(x.optional().map_from(Some)),
        13 => go!((&mut x).map_from(|v: T| v)),
        14 => go!(x.map_err(|e: Error| *e.kind())),
        15 => {
            let mut s = x.slice();
            s.set_consumable_bytes(1 << 40);
            go!(s.optional().map_from(Some))
        }
        16 => go!(x.map_err(|e| e).max_bytes(1 << 40)),
        17 => go!(x.map_from(|v: T| v).map_from(|v: T| v)),
        18 => {
            let mut s = (&mut x).slice();
            s.set_consumable_bytes(1 << 40);
            go!(s)
        }
        _ => go!(x),
    }
}
/// `exact_requiring_bytes` through the wrappers.
fn sized<T, E>(ch: &mut Ch, make: &dyn Fn() -> E, items: &[T], depth: usize) -> Case
where
    T: Clone + Debug + 'static,
    E: SizedEncode<Item = T> + 'static,
{
    let mut a = make();
    let mut x = make();
    macro_rules! go {
        ($e:expr) => {{
            #[allow(unused_mut)]
            let mut y = $e;
            for i in 0..=depth {
                let (p, q) = (a.exact_requiring_bytes(), y.exact_requiring_bytes());
                if p != q {
                    return Err(format!("exact_requiring_bytes: directly {p}, wrapped {q}"));
                }
                if i == depth {
                    break;
                }
                let k = ch.pick(items.len() + 3);
                ch.steps(2);
                let busy = !a.is_idle() && k < items.len();
                let (p, q) = if k < items.len() {
                    (a.start_encoding(items[k].clone()).map(|()| 0), y.start_encoding(items[k].clone()).map(|()| 0))
                } else {
                    let n = k - items.len();
                    (a.encode(&mut vec![0; n], Eos::new(false)), y.encode(&mut vec![0; n], Eos::new(false)))
                };
                ch.log(|| format!("choice {k} -> {} / {}", res(&p), res(&q)));
                ch.state(&(i, k, p.is_ok()));
                if busy && p.is_err() && q.is_err() {
                    break;
                }
                if res(&p) != res(&q) {
                    return Err(format!("directly {}, wrapped {}", res(&p), res(&q)));
                }
                if p.is_err_and(|e| *e.kind() != ErrorKind::EncoderFull) {
                    break;
                }
            }
            ch.valid();
            Ok(())
        }};
    }
    match ch.pick(12) {
        0 => go!(Box::new(x)),
        1 => go!(&mut x),
        2 => {
            let y: Box<dyn SizedEncode<Item = T>> = Box::new(x);
            go!(y)
        }
        3 => {
            let y: &mut dyn SizedEncode<Item = T> = &mut x;
            go!(y)
        }
        4 => go!(Box::new(Box::new(x))),
        5 => go!(x.map_from(|v: T| v)),
        6 => go!(x.try_map_from(Ok::<T, Error>)),
        7 => go!(x.map_err(|e| e)),
        8 => {
            let mut s = x.slice();
            s.set_consumable_bytes(u64::MAX);
            go!(s)
        }
        9 => go!(x.max_bytes(u64::MAX)),
        10 => go!(x.optional().map_from(Some)),
        _ => go!((&mut x).map_from(|v: T| v)),
    }
}
fn encoders(us: &mut Vec<Unit>, depth: usize) {
    macro_rules! e {
        ($($name:expr, $items:expr, $e:expr;)*) => {$(
            for (w, wn) in EWRAPS.iter().enumerate() {
                us.push(unit(format!("encoder {} in {wn}", $name), move |ch| wrapped_e(ch, &|| $e, &$items, w, depth)));
            }
        )*};
    }
    macro_rules! s {
        ($($name:expr, $items:expr, $e:expr;)*) => {
            e! { $($name, $items, $e;)* }
            $(us.push(unit(format!("size of {}", $name), move |ch| sized(ch, &|| $e, &$items, depth)));)*
        };
    }
    s! {
        "u8", [3u8, 4], U8Encoder::new();
        "u24le", [3u32, 1 << 24], U24leEncoder::new();
        "f64be", [1.5f64, -2.0], F64beEncoder::new();
        "bytes", [vec![1u8, 2, 3], vec![]], BytesEncoder::<Vec<u8>>::new();
        "utf8", ["é".to_string(), "abc".to_string()], Utf8Encoder::<String>::new();
        "null", [()], NullEncoder;
        "tuple", [(1u8, 2u16)], TupleEncoder::new((U8Encoder::new(), U16beEncoder::new()));
        "length", [vec![1u8, 2, 3], vec![1], vec![0; 4]], BytesEncoder::<Vec<u8>>::new().length(3);
        "limit", [vec![1u8, 2, 3], vec![0; 4]], BytesEncoder::<Vec<u8>>::new().max_bytes(3);
        "optional", [Some(1u16), None], U16leEncoder::new().optional();
        "pre_encode", [vec![1u8, 2].into_iter(), vec![].into_iter()], U8Encoder::new().repeat::<std::vec::IntoIter<u8>>().pre_encode();
        "odd", [7u8, 200], OddE::default();
    }
    e! {
        "padding", [1u8, 2], PaddingEncoder::new();
        "repeat", [vec![1u8, 2].into_iter(), vec![].into_iter()], U8Encoder::new().repeat::<std::vec::IntoIter<u8>>();
        "json", [vec![1u8], vec![]], JsonEncoder::<Vec<u8>>::new();
        "bincode", [(1u8, 2u16)], BincodeEncoder::<(u8, u16)>::new();
        "try_map_from", [1u8, 0], U8Encoder::new().try_map_from(|n: u8| if n == 0 { Err(ErrorKind::InvalidInput) } else { Ok(n) });
    }
    macro_rules! c {
        ($($name:expr, $items:expr, $a:expr, $b:expr;)*) => {$(
            us.push(unit(format!("encoder constructor {}", $name), move |ch| {
                let (mut a, mut b) = ($a, $b);
                twins_e(ch, &mut a, &mut b, &$items, depth - 1, &none)
            }));
        )*};
    }
    fn started<E: Encode>(mut e: E, item: E::Item) -> E {
        e.start_encoding(item).expect("HARNESS: item");
        e
    }
    fn with<E: Encode + Default>(item: E::Item) -> E {
        E::with_item(item).unwrap_or_else(|e| panic!("with_item: {:?}", e.kind()))
    }
    c! {
        "u16 with item", [5u16], started(U16beEncoder::new(), 0x1234), with::<U16beEncoder>(0x1234);
        "bytes with item", [vec![1u8]], started(BytesEncoder::<Vec<u8>>::new(), vec![3, 4]), with::<BytesEncoder<Vec<u8>>>(vec![3, 4]);
        "utf8 with item", ["x"], started(Utf8Encoder::<&str>::new(), "ab"), with::<Utf8Encoder<&str>>("ab");
        "padding with item", [1u8], started(PaddingEncoder::new(), 4), with::<PaddingEncoder>(4);
        "tuple with item", [(1u8, 2u8)], started(TupleEncoder::new((U8Encoder::new(), U8Encoder::new())), (8, 9)), with::<TupleEncoder<(U8Encoder, U8Encoder)>>((8, 9));
        "chain", [(1u8, 2u16)], TupleEncoder::new((U8Encoder::new(), U16beEncoder::new())), U8Encoder::new().chain(U16beEncoder::new());
        "repeat", [vec![1u8].into_iter()], U8Encoder::new().repeat::<std::vec::IntoIter<u8>>(), Repeat::<U8Encoder, std::vec::IntoIter<u8>>::default();
        "optional", [Some(1u8), None], U8Encoder::new().optional(), Optional::<U8Encoder>::default();
        "pre_encode", [1u8], U8Encoder::new().pre_encode(), PreEncode::<U8Encoder>::default();
        "length", [1u8], U8Encoder::new().length(0), Length::<U8Encoder>::default();
        "limit", [1u8], U8Encoder::new().max_bytes(0), MaxBytes::<U8Encoder>::default();
        "slice", [1u8], U8Encoder::new().slice(), Slice::<U8Encoder>::default();
        "json", [1u8], JsonEncoder::<u8>::new(), JsonEncoder::<u8>::default();
        "bincode", [1u8], BincodeEncoder::<u8>::new(), BincodeEncoder::<u8>::default();
        "bytes", [vec![1u8, 2]], BytesEncoder::<Vec<u8>>::new(), BytesEncoder::<Vec<u8>>::default();
        "utf8", ["ab"], Utf8Encoder::<&str>::new(), Utf8Encoder::<&str>::default();
        "array", [[1u8, 2]], BytesEncoder::<[u8; 2]>::new(), BytesEncoder::<[u8; 2]>::default();
    }
}

// ---------------------------------------------------------------- tags

/// Reads as many bytes as its tag says.
#[derive(Default)]
struct Tag {
    tag: Option<u8>,
    calls: usize,
    got: Vec<u8>,
    fail: Option<ErrorKind>,
}
impl Decode for Tag {
    type Item = (u8, Vec<u8>);
    fn decode(&mut self, buf: &[u8], _: Eos) -> Result<usize> {
        let n = buf.len().min(self.tag.map_or(0, usize::from) - self.got.len());
        self.got.extend(&buf[..n]);
        Ok(n)
    }
    fn finish_decoding(&mut self) -> Result<Self::Item> {
        match self.tag {
            Some(t) if usize::from(t) == self.got.len() => {
                self.tag = None;
                Ok((t, std::mem::take(&mut self.got)))
            }
            _ => Err(err(ErrorKind::IncompleteDecoding)),
        }
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.tag.map_or(ByteCount::Unknown, |t| ByteCount::Finite(t as u64 - self.got.len() as u64))
    }
}
impl TaggedDecode for Tag {
    type Tag = u8;
    fn start_decoding(&mut self, tag: u8) -> Result<()> {
        self.calls += 1;
        if let Some(k) = self.fail {
            return Err(err(k));
        }
        if self.tag.is_some() {
            return Err(err(ErrorKind::IncompleteDecoding));
        }
        if tag == 9 {
            return Err(err(ErrorKind::InvalidInput));
        }
        self.tag = Some(tag);
        Ok(())
    }
}
impl TryTaggedDecode for Tag {
    type Tag = u8;
    fn try_start_decoding(&mut self, tag: u8) -> Result<bool> {
        if tag == 9 {
            self.calls += 1;
            return Ok(false);
        }
        self.start_decoding(tag).map(|()| true)
    }
}
fn tag_calls<A: Decode<Item = (u8, Vec<u8>)>, B: Decode<Item = (u8, Vec<u8>)>>(
    ch: &mut Ch,
    a: &mut A,
    b: &mut B,
    fa: &dyn Fn(&mut A, u8) -> String,
    fb: &dyn Fn(&mut B, u8) -> String,
) -> Case {
    for _ in 0..4 {
        let k = ch.pick(7);
        ch.steps(2);
        let (x, y) = match k {
            0..=3 => {
                let t = [0, 1, 2, 9][k];
                (fa(a, t), fb(b, t))
            }
            4 | 5 => {
                let buf = vec![k as u8; k - 3];
                (res(&a.decode(&buf, Eos::new(false))), res(&b.decode(&buf, Eos::new(false))))
            }
            _ => (res(&a.finish_decoding()), res(&b.finish_decoding())),
        };
        ch.log(|| format!("call {k}: {x} / {y}"));
        ch.state(&(k, &x));
        if x != y || a.is_idle() != b.is_idle() || a.requiring_bytes() != b.requiring_bytes() {
            return Err(format!("call {k}: directly {x} idle={}, wrapped {y} idle={}", a.is_idle(), b.is_idle()));
        }
        ch.outcome(&x);
    }
    ch.valid();
    Ok(())
}
fn pick_fail(ch: &mut Ch) -> Option<ErrorKind> {
    ch.pick(KINDS.len() + 1).checked_sub(1).map(|i| KINDS[i])
}
fn tagged(ch: &mut Ch) -> Case {
    let fail = pick_fail(ch);
    let mut a = Tag { fail, ..Tag::default() };
    let mut x = Tag { fail, ..Tag::default() };
    fn call<D: TaggedDecode<Tag = u8>>(d: &mut D, t: u8) -> String {
        res(&d.start_decoding(t))
    }
    macro_rules! go {
        ($e:expr) => {{
            #[allow(unused_mut)]
            let mut y = $e;
            tag_calls(ch, &mut a, &mut y, &call, &call)
        }};
    }
    match ch.pick(6) {
        0 => go!(Box::new(x)),
        1 => {
            go!(&mut x)?;
            if a.calls != x.calls {
                return Err(format!("{} calls arrived of {}", x.calls, a.calls));
            }
            Ok(())
        }
        2 => {
            let y: Box<dyn TaggedDecode<Tag = u8, Item = (u8, Vec<u8>)>> = Box::new(x);
            go!(y)
        }
        3 => {
            let y: &mut dyn TaggedDecode<Tag = u8, Item = (u8, Vec<u8>)> = &mut x;
            go!(y)
        }
        4 => go!(Box::new(Box::new(x))),
        _ => go!(Box::new(&mut x)),
    }
}
fn tried(ch: &mut Ch) -> Case {
    let fail = pick_fail(ch);
    let mut a = Tag { fail, ..Tag::default() };
    let mut x = Tag { fail, ..Tag::default() };
    fn call<D: TryTaggedDecode<Tag = u8>>(d: &mut D, t: u8) -> String {
        res(&d.try_start_decoding(t))
    }
    macro_rules! go {
        ($e:expr) => {{
            #[allow(unused_mut)]
            let mut y = $e;
            tag_calls(ch, &mut a, &mut y, &call, &call)
        }};
    }
    match ch.pick(6) {
        0 => go!(Box::new(x)),
        1 => {
            go!(&mut x)?;
            if a.calls != x.calls {
                return Err(format!("{} calls arrived of {}", x.calls, a.calls));
            }
            Ok(())
        }
        2 => {
            let y: Box<dyn TryTaggedDecode<Tag = u8, Item = (u8, Vec<u8>)>> = Box::new(x);
            go!(y)
        }
        3 => {
            let y: &mut dyn TryTaggedDecode<Tag = u8, Item = (u8, Vec<u8>)> = &mut x;
            go!(y)
        }
        4 => go!(Box::new(Box::new(x))),
        _ => go!(Box::new(&mut x)),
    }
}

// ---------------------------------------------------------------- accessors

/// Decodes so many bytes through a wrapper, looks at the inner decoder, changes it, takes it out.
macro_rules! probe_d {
    ($ch:expr, $name:expr, $bytes:expr, $w:expr, $take:ty) => {{
        let mut w = $w;
        let n: usize = $bytes;
        let r = w.decode(&[1u8; 8][..n], Eos::new(false));
        $ch.step();
        let want = n.min(4);
        if r.as_ref().ok() != Some(&want) {
            return Err(format!("{}: decode({n}) gave {}", $name, res(&r)));
        }
        // a collection or a peeked decoder takes the item at once
        let eager = $name == "peekable" || $name == "collectn" || $name == "collect";
        let taken = if eager && want == 4 { 0 } else { want as u64 };
        if w.inner_ref().taken != taken || w.inner_ref().size != Some(4) {
            return Err(format!("{}: inner_ref() shows {} bytes taken, {taken} were", $name, w.inner_ref().taken));
        }
        w.inner_mut().seen.clear();
        w.inner_mut().size = Some(5);
        if w.inner_ref().size != Some(5) || !w.inner_ref().seen.is_empty() {
            return Err(format!("{}: a change through inner_mut() is lost", $name));
        }
        let inner = w.into_inner();
        if inner.size != Some(5) || inner.taken != taken {
            return Err(format!("{}: into_inner() gives another decoder", $name));
        }
    }};
}
fn dec_access(ch: &mut Ch) -> Case {
    let n = ch.pick(6);
    let pd = || PD::new(Some(4));
    let k = ch.pick(13);
    ch.state(&(n, k));
    match k {
        0 => probe_d!(ch, "map", n, pd().map(|x| x), ()),
        1 => probe_d!(ch, "map_err", n, pd().map_err(|e| e), ()),
        2 => probe_d!(ch, "try_map", n, pd().try_map(Ok::<u64, Error>), ()),
        3 => probe_d!(ch, "omit", n, pd().omit(false), ()),
        4 => probe_d!(ch, "collect", n.min(4), pd().collect::<Vec<_>>(), ()),
        5 => probe_d!(ch, "collectn", n.min(4), pd().collectn::<Vec<_>>(2), ()),
        6 => probe_d!(ch, "length", n, pd().length(4), ()),
        7 => probe_d!(ch, "max_bytes", n, pd().max_bytes(100), ()),
        8 => probe_d!(
            ch,
            "slice",
            n,
            {
                let mut s = pd().slice();
                s.set_consumable_bytes(4);
                s
            },
            ()
        ),
        9 => probe_d!(ch, "peekable", n, pd().peekable(), ()),
        10 => probe_d!(ch, "maybe_eos", n, pd().maybe_eos(), ()),
        11 => {
            let mut w = TupleDecoder::new((pd(), pd()));
            w.decode(&[1; 5][..n], Eos::new(false)).map_err(|e| format!("{:?}", e.kind()))?;
            let t = (n.min(4) as u64, n.saturating_sub(4) as u64);
            if (w.inner_ref().0.taken, w.inner_ref().1.taken) != t {
                return Err("tuple: inner_ref()".into());
            }
            w.inner_mut().1.size = Some(9);
            let (a, b) = w.into_inner();
            if (a.taken, b.taken, a.size, b.size) != (t.0, t.1, Some(4), Some(9)) {
                return Err("tuple: into_inner()".into());
            }
        }
        _ => {
            let mut w = Utf8Decoder::with_bytes_decoder(BytesDecoder::new(vec![b'x'; 4]));
            w.decode(&b"aaaaa"[..n], Eos::new(false)).map_err(|e| format!("{:?}", e.kind()))?;
            let rest = 4u64.saturating_sub(n as u64);
            if w.inner_ref().requiring_bytes() != ByteCount::Finite(rest) {
                return Err("utf8: inner_ref()".into());
            }
            w.inner_mut().set_bytes(vec![0; 7]);
            if w.requiring_bytes() != ByteCount::Finite(7) {
                return Err("utf8: inner_mut()".into());
            }
            if w.into_inner().requiring_bytes() != ByteCount::Finite(7) {
                return Err("utf8: into_inner()".into());
            }
        }
    }
    // settings that other wrappers keep
    if n == 0 {
        let mut o = pd().omit(true);
        if !o.will_omit() {
            return Err("omit(true): will_omit() is false".into());
        }
        o.do_omit(false);
        if o.will_omit() || pd().omit(false).will_omit() {
            return Err("will_omit() is true although switched off".into());
        }
        let c = pd().collectn::<Vec<_>>(3);
        if c.remaining_items() != 3 || pd().length(5).expected_bytes() != 5 || pd().length(5).remaining_bytes() != 5 {
            return Err("a setting is not kept".into());
        }
        let m = pd().max_bytes(6);
        if MaxBytes::max_bytes(&m) != 6 || m.consumed_bytes() != 0 || pd().slice().consumable_bytes() != 0 {
            return Err("a setting is not kept".into());
        }
    }
    ch.outcome(&k);
    ch.valid();
    Ok(())
}
macro_rules! probe_e {
    ($ch:expr, $name:expr, $n:expr, $w:expr, $item:expr) => {{
        let mut w = $w;
        let n: usize = $n;
        if n > 0 {
            if let Some(item) = $item {
                w.start_encoding(item).map_err(|e| format!("{}: start {:?}", $name, e.kind()))?;
            }
            let r = w.encode(&mut [0u8; 8][..n - 1], Eos::new(false));
            $ch.step();
            if r.as_ref().ok() != Some(&(n - 1)) {
                return Err(format!("{}: encode({}) gave {}", $name, n - 1, res(&r)));
            }
        }
        let d = n.saturating_sub(1) as u64;
        if w.inner_ref().done != d {
            return Err(format!("{}: inner_ref() shows {} bytes written, {d} were", $name, w.inner_ref().done));
        }
        w.inner_mut().seen.clear();
        w.inner_mut().size = 77;
        if w.inner_ref().size != 77 || !w.inner_ref().seen.is_empty() {
            return Err(format!("{}: a change through inner_mut() is lost", $name));
        }
        let inner = w.into_inner();
        if inner.size != 77 || inner.done != d {
            return Err(format!("{}: into_inner() gives another encoder", $name));
        }
    }};
}
struct Mono(u8);
impl MonolithicEncode for Mono {
    type Item = u8;
    fn monolithic_encode<W: Write>(&self, item: &u8, mut w: W) -> Result<()> {
        Ok(w.write_all(&[self.0, *item])?)
    }
}
impl MonolithicDecode for Mono {
    type Item = u8;
    fn monolithic_decode<R: Read>(&self, mut r: R) -> Result<u8> {
        let mut v = vec![];
        r.read_to_end(&mut v)?;
        Ok(self.0 + v.len() as u8)
    }
}
fn enc_access(ch: &mut Ch) -> Case {
    let n = ch.pick(5);
    let pe = PE::default;
    let k = ch.pick(13);
    ch.state(&(n, k));
    match k {
        0 => probe_e!(ch, "map_from", n, pe().map_from(|x: u64| x), Some(5)),
        1 => probe_e!(ch, "try_map_from", n, pe().try_map_from(Ok::<u64, Error>), Some(5)),
        2 => probe_e!(ch, "map_err", n, pe().map_err(|e| e), Some(5)),
        3 => probe_e!(ch, "repeat", n, pe().repeat::<std::vec::IntoIter<u64>>(), Some(vec![5].into_iter())),
        4 => probe_e!(ch, "optional", n, pe().optional(), Some(Some(5))),
        5 => probe_e!(ch, "length", n, pe().length(5), Some(5)),
        6 => probe_e!(ch, "max_bytes", n, pe().max_bytes(5), Some(5)),
        7 => probe_e!(
            ch,
            "slice",
            n,
            {
                let mut s = pe().slice();
                s.set_consumable_bytes(5);
                s
            },
            Some(5)
        ),
        8 => probe_e!(ch, "last", n, pe().last(5), None),
        9 => {
            let mut w = pe().pre_encode();
            w.start_encoding(4).map_err(|e| format!("{:?}", e.kind()))?;
            if w.inner_ref().done != 4 {
                return Err("pre_encode: inner_ref()".into());
            }
            w.inner_mut().size = 77;
            if w.into_inner().size != 77 {
                return Err("pre_encode: into_inner()".into());
            }
        }
        10 => {
            let mut w = TupleEncoder::new((pe(), pe()));
            w.start_encoding((2, 3)).map_err(|e| format!("{:?}", e.kind()))?;
            w.encode(&mut [0; 8][..n], Eos::new(false)).map_err(|e| format!("{:?}", e.kind()))?;
            let t = (n.min(2) as u64, n.saturating_sub(2) as u64);
            if (w.inner_ref().0.done, w.inner_ref().1.done) != t {
                return Err("tuple: inner_ref()".into());
            }
            w.inner_mut().1.size = 9;
            let (a, b) = w.into_inner();
            if (a.done, b.done, a.size, b.size) != (t.0, t.1, 2, 9) {
                return Err("tuple: into_inner()".into());
            }
        }
        11 => {
            let mut w = MonolithicEncoder::new(Mono(3));
            if w.inner_ref().0 != 3 {
                return Err("monolithic encoder: inner_ref()".into());
            }
            w.inner_mut().0 = 4;
            let b = w.encode_into_bytes(9).map_err(|e| format!("{:?}", e.kind()))?;
            if b != [4, 9] || w.into_inner().0 != 4 {
                return Err("monolithic encoder: inner_mut()".into());
            }
        }
        _ => {
            let mut w = MonolithicDecoder::new(Mono(3));
            if w.inner_ref().0 != 3 {
                return Err("monolithic decoder: inner_ref()".into());
            }
            w.inner_mut().0 = 4;
            let v = w.decode_from_bytes(&[0; 8][..n]).map_err(|e| format!("{:?}", e.kind()))?;
            if v != 4 + n as u8 || w.into_inner().0 != 4 {
                return Err("monolithic decoder: inner_mut()".into());
            }
        }
    }
    ch.outcome(&k);
    ch.valid();
    Ok(())
}
/// Peeking sees the item that is handed out, and may change it.
fn peeking(ch: &mut Ch) -> Case {
    let mut d = U16beDecoder::new().peekable();
    let mut have: Option<u16> = None;
    let mut got: Vec<u8> = vec![];
    let mut next = 1u8;
    for _ in 0..6 {
        if d.peek() != have.as_ref() || d.is_idle() != have.is_some() {
            return Err(format!("peek() = {:?}, idle={}, item {have:?}", d.peek(), d.is_idle()));
        }
        let k = ch.pick(6);
        ch.step();
        ch.state(&(k, have.is_some(), got.len()));
        match k {
            0..=2 => {
                let n = [1, 2, 3][k];
                let buf: Vec<u8> = (0..n).map(|i| next + i as u8).collect();
                let r = d.decode(&buf, Eos::new(false));
                let w = if have.is_some() { 0 } else { n.min(2 - got.len()) };
                if r.as_ref().ok() != Some(&w) {
                    return Err(format!("decode({n}) with item {have:?}: {}", res(&r)));
                }
                got.extend(&buf[..w]);
                next += w as u8;
                if got.len() == 2 {
                    have = Some(u16::from(got[0]) << 8 | u16::from(got[1]));
                    got.clear();
                }
            }
            3 => {
                let r = d.finish_decoding();
                match (&r, have.take()) {
                    (Ok(a), Some(b)) if *a == b => {}
                    (Err(e), None) if *e.kind() == ErrorKind::IncompleteDecoding => {}
                    (_, w) => return Err(format!("finish gave {}, item {w:?}", res(&r))),
                }
            }
            4 => match (d.peek_mut(), &mut have) {
                (Some(a), Some(b)) => {
                    *a ^= 0x8001;
                    *b ^= 0x8001;
                }
                (None, None) => {}
                (a, b) => return Err(format!("peek_mut() = {a:?}, item {b:?}")),
            },
            _ => {
                // looking twice changes nothing
                let _ = (d.peek(), d.peek());
            }
        }
    }
    ch.outcome(&(have, got.len()));
    ch.valid();
    Ok(())
}
fn bytes_access(ch: &mut Ch) -> Case {
    let n = ch.pick(4);
    let mut d = CopyableBytesDecoder::new([9u8; 3]);
    d.decode(&[1, 2, 3][..n], Eos::new(false)).map_err(|e| format!("{:?}", e.kind()))?;
    ch.step();
    let mut w = [9u8; 3];
    w[..n].copy_from_slice(&[1, 2, 3][..n]);
    if *d.inner_ref() != w {
        return Err(format!("inner_ref() = {:?} after {n} bytes", d.inner_ref()));
    }
    d.inner_mut()[0] = 77;
    w[0] = 77;
    if d.clone_inner() != w {
        return Err("inner_mut()".into());
    }
    if n == 3 {
        let v = d.finish_decoding().map_err(|e| format!("{:?}", e.kind()))?;
        if v != w {
            return Err(format!("item {v:?} after a change through inner_mut()"));
        }
    }
    if d.into_inner() != w {
        return Err("into_inner()".into());
    }
    ch.outcome(&n);
    ch.valid();
    Ok(())
}
trait CloneInner {
    fn clone_inner(&self) -> [u8; 3];
}
impl CloneInner for CopyableBytesDecoder<[u8; 3]> {
    fn clone_inner(&self) -> [u8; 3] {
        *self.inner_ref()
    }
}
