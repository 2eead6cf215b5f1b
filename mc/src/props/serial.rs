//! C23: JSON, bincode and user-written monolithic codecs against the serializers themselves.
use crate::core::*;
use crate::props::{scale, value};
use crate::val::*;
use bytecodec::bincode_codec::{BincodeDecoder, BincodeEncoder};
use bytecodec::json_codec::{JsonDecoder, JsonEncoder};
use bytecodec::monolithic::*;
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, ErrorKind};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::io::{Read, Write};

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
struct Rec {
    id: u16,
    name: String,
    tags: Vec<u8>,
    next: Option<Box<Rec>>,
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
enum En {
    A,
    B(u8),
    C { x: i32, y: String },
    D(u8, Vec<En>),
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
struct U;

trait Format: Copy + Send + Sync + 'static {
    const NAME: &'static str;
    fn write<T: Serialize>(t: &T) -> Option<Vec<u8>>;
    /// What the deserializer makes of the complete input.
    fn read<T: for<'a> Deserialize<'a>>(b: &[u8]) -> Option<T>;
    type Dec<T: for<'a> Deserialize<'a>>: Decode<Item = T> + Default;
    type Enc<T: Serialize>: Encode<Item = T> + Default;
}
#[derive(Clone, Copy)]
struct Js;
impl Format for Js {
    const NAME: &'static str = "json";
    fn write<T: Serialize>(t: &T) -> Option<Vec<u8>> {
        serde_json::to_vec(t).ok()
    }
    fn read<T: for<'a> Deserialize<'a>>(b: &[u8]) -> Option<T> {
        serde_json::from_reader(b).ok()
    }
    type Dec<T: for<'a> Deserialize<'a>> = JsonDecoder<T>;
    type Enc<T: Serialize> = JsonEncoder<T>;
}
#[derive(Clone, Copy)]
struct Bin;
impl Format for Bin {
    const NAME: &'static str = "bincode";
    fn write<T: Serialize>(t: &T) -> Option<Vec<u8>> {
        bincode::serialize(t).ok()
    }
    fn read<T: for<'a> Deserialize<'a>>(b: &[u8]) -> Option<T> {
        // the same limit on allocations as the decoder has to have (C22)
        use bincode::Options;
        bincode::DefaultOptions::new().with_fixint_encoding().allow_trailing_bytes().with_limit(b.len() as u64 + 64).deserialize_from(b).ok()
    }
    type Dec<T: for<'a> Deserialize<'a>> = BincodeDecoder<T>;
    type Enc<T: Serialize> = BincodeEncoder<T>;
}

pub fn c23(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    b.push("25 serializable types x 2..=7 values: every composition of up to 10 (12) output bytes into buffers, else 3 free buffer sizes; end of output announced at every position; two items in sequence; refused second start".into());
    b.push("decoding of those values, every truncation, every single-byte corruption (5 values), trailing bytes: chunkings in up to 3 free cuts, 3 ways of announcing the end, item probed before".into());
    b.push("all byte strings up to length 4 (5) over a JSON and a bincode alphabet, every chunking".into());
    b.push("user-written monolithic codecs reading and writing in pieces of 0..=3 bytes, failing with each kind after 0..=3 bytes; sizes on the ladder".into());
    let mut us = vec![];
    macro_rules! ty {
        ($t:ty: $($v:expr),* $(,)?) => {{
            let vs: Vec<$t> = vec![$($v),*];
            values::<Js, $t>(&mut us, stringify!($t), vs.clone(), th);
            values::<Bin, $t>(&mut us, stringify!($t), vs, th);
        }};
    }
    let s = |x: &str| x.to_string();
    ty!(u8: 0, 7, 255);
    ty!(i16: -1, 0, 300);
    ty!(u32: 0, u32::MAX);
    ty!(u64: 1, u64::MAX);
    ty!(i64: i64::MIN, 5);
    ty!(i128: 0, -5);
    ty!(f64: 0.5, -1e300);
    ty!(bool: true, false);
    ty!(char: 'a', 'é', '\u{10FFFF}');
    ty!((): ());
    ty!(U: U);
    ty!(String: s(""), s("a"), s("hé\"\\\n"), s("0123456789abcdef"));
    ty!(Vec<u8>: vec![], vec![1, 2, 3], vec![0; 20]);
    ty!(Vec<u64>: vec![], vec![1], vec![u64::MAX; 3]);
    ty!(Vec<String>: vec![], vec![s("")], vec![s("x"), s("yz")]);
    ty!(Vec<Vec<u8>>: vec![], vec![vec![], vec![1]]);
    ty!(Option<u16>: None, Some(3));
    ty!(Option<Option<u8>>: None, Some(Some(3)));
    ty!((u8, String): (1, s("")), (2, s("ab")));
    ty!((u8, u16, u32): (1, 2, 3));
    ty!([u8; 3]: [1, 2, 3]);
    ty!(BTreeMap<String, u32>: BTreeMap::new(), [(s("k"), 1), (s("l"), 2)].into());
    ty!(Result<u8, String>: Ok(1), Err(s("e")));
    let r = Rec { id: 1, name: s("n"), tags: vec![1], next: None };
    ty!(Rec: r.clone(), Rec { next: Some(Box::new(r)), ..Rec { id: 2, name: s(""), tags: vec![], next: None } });
    ty!(En: En::A, En::B(9), En::C { x: -1, y: s("q") }, En::D(1, vec![En::A, En::B(2)]));
    values::<Js, serde_json::Value>(&mut us, "Value", vec![serde_json::json!(null), serde_json::json!({"a": [1, 2.5, "x"], "b": {}}), serde_json::json!([[], [true]])], th);

    macro_rules! strings {
        ($f:ty, $a:expr, $($t:ty),*) => {$(
            us.push(unit(format!("{} strings {}", <$f>::NAME, stringify!($t)), move |ch| strings::<$f, $t>(ch, $a, 4 + usize::from(th))));
        )*};
    }
    strings!(Js, b"1 \"[x", serde_json::Value, u8, String, Option<u8>, Vec<u8>);
    strings!(Js, b"{}[],", serde_json::Value);
    strings!(Bin, &[0, 1, 2, 0xFF], u8, bool, u16, Option<u8>, (bool, u8), (), [bool; 3], char);
    for n in scale::ladder(th) {
        us.push(unit(format!("json ladder {n}"), move |ch| big::<Js>(ch, n)));
        us.push(unit(format!("bincode ladder {n}"), move |ch| big::<Bin>(ch, n)));
        us.push(unit(format!("monolithic ladder {n}"), move |ch| mono_big(ch, n)));
    }
    for k in 0..READERS {
        us.push(unit(format!("user-written decoder {k}"), move |ch| mono_dec(ch, k)));
    }
    b.push("every ASCII character and 23 others, and every byte value, first, last, at both ends, in the middle or everywhere of strings and vectors of 1..=17 and around the powers of two up to 1024 (8192); every u8, u16 and special char, alone: 6 ways of decoding, 6 of encoding".into());
    for n in value::lens(th) {
        us.push(unit(format!("json characters {n}"), move |ch| contents::<Js>(ch, n)));
        us.push(unit(format!("bincode characters {n}"), move |ch| contents::<Bin>(ch, n)));
    }
    b.push("strings and vectors of 2^17..2^21 (2^24) elements, give or take one".into());
    for n in value::huge(th) {
        us.push(unit(format!("json huge {n}"), move |ch| contents::<Js>(ch, n)));
        us.push(unit(format!("bincode huge {n}"), move |ch| contents::<Bin>(ch, n)));
    }
    us.push(unit("json scalars", small::<Js>));
    us.push(unit("bincode scalars", small::<Bin>));
    us.push(unit("user-written encoder", mono_enc));
    us.push(unit("unserializable", unserializable));
    us
}
fn values<F: Format, T>(us: &mut Vec<Unit>, name: &str, vs: Vec<T>, th: bool)
where
    T: Serialize + for<'a> Deserialize<'a> + Clone + PartialEq + Debug + Send + Sync + 'static,
{
    for i in 0..vs.len() {
        let vs = vs.clone();
        let all = if th { 12 } else { 10 };
        us.push(unit(format!("{} encode {name} #{i}", F::NAME), {
            let vs = vs.clone();
            move |ch| enc_value::<F, T>(ch, &vs, i, all)
        }));
        us.push(unit(format!("{} decode {name} #{i}", F::NAME), move |ch| dec_value::<F, T>(ch, &vs[i], all)));
    }
}
/// Encodes an item into chosen buffers and compares with the expected bytes.
pub fn drain<T, E: Encode<Item = T>>(ch: &mut Ch, e: &mut E, want: &[u8], all: usize, eos_at: Option<usize>, retry: Option<&dyn Fn() -> T>) -> Result<bool, String> {
    let mut off = 0;
    let mut free = 3;
    let mut empties = 1;
    let mut before = true;
    loop {
        let rest = want.len() - off;
        let n = if want.len() <= all {
            // every size up to what is left and one more; one empty buffer
            let k = ch.pick(rest + 1 + usize::from(empties > 0));
            if k == rest + 1 {
                empties -= 1;
                0
            } else {
                rest + 1 - k
            }
        } else if free > 0 {
            free -= 1;
            [rest, rest + 1, rest.saturating_sub(1), 1, 0, rest / 2][ch.pick(6)]
        } else {
            (rest / 3).max(7)
        };
        // the end of the output comes with the buffer that reaches it
        let (n, eos) = match eos_at {
            Some(cap) if off + n >= cap => (cap - off, true),
            _ => (n, false),
        };
        match e.requiring_bytes() {
            ByteCount::Finite(x) if x != rest as u64 => return Err(format!("{x} bytes announced, {rest} to come")),
            ByteCount::Infinite => return Err("infinite output announced".into()),
            _ => {}
        }
        let mut buf = vec![0xEE; n];
        let r = e.encode(&mut buf, Eos::new(eos));
        ch.step();
        ch.log(|| format!("encode({n}, eos={eos}) -> {} idle={}", res(&r), e.is_idle()));
        ch.state(&(off, n, eos, r.is_ok(), e.is_idle()));
        match r {
            Err(err) => {
                if eos && n < rest && *err.kind() == ErrorKind::UnexpectedEos {
                    return Ok(false);
                }
                return Err(format!("encode failed with {:?} ({rest} to come, buffer {n}, eos={eos})", err.kind()));
            }
            Ok(s) => {
                let w = n.min(rest);
                if s != w || buf[..s] != want[off..off + s] || buf[s..].iter().any(|b| *b != 0xEE) {
                    return Err(format!("encode({n}) wrote {s} bytes {}, expected {w} of {}", hex(&buf), hex(&want[off..])));
                }
                if eos && w < rest {
                    return Err(format!("end of output with {} bytes to come goes unnoticed", rest - w));
                }
                off += s;
            }
        }
        let idle = e.is_idle();
        // Nothing was written and nothing is to be written: not done before the first call.
        if idle != (off == want.len()) {
            return Err(format!("{off} of {} bytes written, idle={idle}", want.len()));
        }
        if idle {
            if e.requiring_bytes() != ByteCount::Finite(0) {
                return Err("idle encoder requires bytes".into());
            }
            return Ok(true);
        }
        if let (true, Some(f)) = (before, retry) {
            before = false;
            match e.start_encoding(f()) {
                Err(x) if *x.kind() == ErrorKind::EncoderFull => {}
                r => return Err(format!("second item in between: {}", res(&r))),
            }
        }
    }
}
fn enc_value<F: Format, T: Serialize + Clone + Debug>(ch: &mut Ch, vs: &[T], i: usize, all: usize) -> Case {
    let want = F::write(&vs[i]).expect("HARNESS: serialize");
    let mut e = F::Enc::<T>::default();
    if !e.is_idle() || e.requiring_bytes() != ByteCount::Finite(0) {
        return Err("fresh encoder is busy".into());
    }
    e.start_encoding(vs[i].clone()).map_err(|e| format!("start: {:?}", e.kind()))?;
    if e.is_idle() {
        return Err("encoder idle although it has an item".into());
    }
    match ch.pick(3) {
        0 => {
            let again = || vs[0].clone();
            drain(ch, &mut e, &want, all, None, Some(&again))?;
            // the next item
            let j = ch.pick(vs.len());
            let want = F::write(&vs[j]).unwrap();
            e.start_encoding(vs[j].clone()).map_err(|e| format!("second start: {:?}", e.kind()))?;
            drain(ch, &mut e, &want, 0, None, None)?;
        }
        1 => {
            let cap = ch.pick(want.len() + 2);
            drain(ch, &mut e, &want, all.min(8), Some(cap), None)?;
        }
        _ => {
            let mut e2 = F::Enc::<T>::default();
            let got = e2.encode_into_bytes(vs[i].clone()).map_err(|e| format!("encode_into_bytes: {:?}", e.kind()))?;
            if got != want {
                return Err(format!("encode_into_bytes gave {}, expected {}", hex(&got), hex(&want)));
            }
        }
    }
    ch.outcome(&want);
    ch.valid();
    Ok(())
}
fn dec_value<F: Format, T: Serialize + for<'a> Deserialize<'a> + PartialEq + Debug>(ch: &mut Ch, v: &T, all: usize) -> Case {
    let mut inp = F::write(v).expect("HARNESS: serialize");
    match ch.pick(4) {
        0 => {}
        1 => {
            let k = ch.pick(inp.len().max(1));
            inp.truncate(k);
        }
        2 => {
            if inp.is_empty() {
                return ch.skip();
            }
            let k = ch.pick(inp.len());
            inp[k] = *ch.of(&[0, 1, 0xFF, b' ', b'"']);
        }
        _ => inp.extend(ch.of(&[&b" "[..], b"x", b" \n ", b"11"]).iter()),
    }
    dec_stream::<F, T>(ch, &inp, all.min(7))
}
fn dec_stream<F: Format, T: for<'a> Deserialize<'a> + PartialEq + Debug>(ch: &mut Ch, inp: &[u8], all: usize) -> Case {
    let want = F::read::<T>(inp);
    let mut d = F::Dec::<T>::default();
    feed(ch, &mut d, inp, &want, all, INV)?;
    if want.is_some() && inp.len() <= 4 {
        // the decoder is reusable
        feed(ch, &mut d, inp, &want, 0, INV)?;
    }
    ch.outcome(&(inp, want.is_some()));
    ch.valid();
    Ok(())
}
/// Feeds a complete stream; `want`: the item, or an error of one of the kinds at the end.
pub fn feed<T: PartialEq + Debug, D: Decode<Item = T>>(ch: &mut Ch, d: &mut D, inp: &[u8], want: &Option<T>, all: usize, kinds: Ks) -> Case {
    let mode = ch.pick(3);
    let mut off = 0;
    let mut free = 2;
    loop {
        let rest = inp.len() - off;
        let n = if rest == 0 {
            0
        } else if inp.len() <= all {
            // every size, and once an empty chunk
            rest - ch.pick(rest + usize::from(free > 0))
        } else if free > 0 {
            free -= 1;
            rest - [0, rest - 1, 1, rest / 2][ch.pick(4)]
        } else {
            rest
        };
        let eos = match mode {
            0 => Eos::new(n == rest),
            1 => Eos::new(rest == 0),
            _ => crate::drive::finite((rest - n) as u64),
        };
        if n == 0 && rest > 0 && inp.len() <= all {
            free = 0;
        }
        let req = d.requiring_bytes();
        if d.is_idle() || req == ByteCount::Finite(0) {
            return Err(format!("ready ({}) before the end of the stream", crate::drive::bc(req)));
        }
        match d.finish_decoding() {
            Err(e) if *e.kind() == ErrorKind::IncompleteDecoding => {}
            r => return Err(format!("asked too early: {}", res(&r))),
        }
        let r = d.decode(&inp[off..off + n], eos);
        ch.step();
        let idle = d.is_idle();
        ch.log(|| format!("decode({n}, {eos:?}) -> {} idle={idle}", res(&r)));
        ch.state(&(off, n, mode, r.is_ok(), idle));
        if !eos.is_reached() {
            if r.as_ref().ok() != Some(&n) || idle {
                return Err(format!("before the end of the stream: {} of {n} bytes, idle={idle}", res(&r)));
            }
            off += n;
            continue;
        }
        match (r, want) {
            (Err(e), None) if kinds.has(*e.kind()) => return Ok(()),
            (Ok(s), Some(w)) if idle && s <= n => {
                if d.requiring_bytes() != ByteCount::Finite(0) {
                    return Err("finished decoder requires bytes".into());
                }
                // ready: nothing more is consumed
                for e in [Eos::new(false), Eos::new(true)] {
                    match d.decode(b"1]", e) {
                        Ok(0) => {}
                        r => return Err(format!("ready decoder offered more: {}", res(&r))),
                    }
                }
                let v = d.finish_decoding().map_err(|e| format!("finish: {:?}", e.kind()))?;
                if v != *w {
                    return Err(format!("item {v:?}, the deserializer yields {w:?} ({})", hex(inp)));
                }
                if d.is_idle() {
                    return Err("ready after the item was taken".into());
                }
                return Ok(());
            }
            (r, w) => return Err(format!("decoding {} gave {} (idle={idle}), the deserializer {w:?}", hex(inp), res(&r))),
        }
    }
}
fn strings<F: Format, T: for<'a> Deserialize<'a> + PartialEq + Debug>(ch: &mut Ch, alpha: &[u8], max: usize) -> Case {
    let len = max - ch.pick(max + 1);
    let inp: Vec<u8> = (0..len).map(|_| alpha[ch.pick(alpha.len())]).collect();
    dec_stream::<F, T>(ch, &inp, 3)
}
fn big<F: Format>(ch: &mut Ch, n: usize) -> Case {
    let s: String = "0123456789abcdef".chars().cycle().take(n).collect();
    let want = F::write(&s).unwrap();
    if ch.pick_bool() {
        let mut e = F::Enc::<String>::default();
        e.start_encoding(s).map_err(|e| format!("start: {:?}", e.kind()))?;
        let at = match ch.pick(4) {
            0 => None,
            1 => Some(want.len()),
            2 => Some(want.len() - 1),
            _ => Some(want.len() / 2),
        };
        drain(ch, &mut e, &want, 0, at, None)?;
    } else {
        let mut d = F::Dec::<String>::default();
        feed(ch, &mut d, &want, &Some(s), 0, INV)?;
    }
    ch.valid();
    Ok(())
}

fn through<F: Format, T: Serialize + for<'a> Deserialize<'a> + Debug>(ch: &mut Ch, item: T) -> Case {
    let want = F::write(&item).unwrap();
    if ch.pick_bool() {
        value::enc(ch, F::Enc::<T>::default(), item, &want)
    } else {
        value::dec(ch, F::Dec::<T>::default(), &want, |x| F::write(&x).unwrap())
    }
}
fn contents<F: Format>(ch: &mut Ch, n: usize) -> Case {
    if ch.pick_bool() {
        let Some(s) = value::text_of(ch, n) else { return ch.skip() };
        through::<F, String>(ch, s)
    } else {
        let Some(v) = value::contents(ch, n) else { return ch.skip() };
        through::<F, Vec<u8>>(ch, v)
    }
}
fn small<F: Format>(ch: &mut Ch) -> Case {
    match ch.pick(4) {
        0 => {
            let x = ch.pick(256) as u8;
            through::<F, u8>(ch, x)
        }
        1 => {
            let x = ch.pick(1 << 16) as u16;
            through::<F, u16>(ch, x)
        }
        2 => {
            let x = ch.pick(256) as u64;
            let at = ch.pick(8) * 8;
            through::<F, (u64, i64)>(ch, (x << at, (!x << at) as i64))
        }
        _ => {
            let c = *ch.of(&value::characters());
            through::<F, (char, Option<char>)>(ch, (c, Some(c)))
        }
    }
}

// ---------------------------------------------------------------- user-written codecs

/// Reads everything in its own way, and notes what it saw.
struct Reading {
    how: usize,
    piece: usize,
    fail: Option<(usize, ErrorKind)>,
    seen: RefCell<Vec<Vec<u8>>>,
}
const READERS: usize = 5;
impl MonolithicDecode for Reading {
    type Item = Vec<u8>;
    fn monolithic_decode<R: Read>(&self, mut r: R) -> bytecodec::Result<Vec<u8>> {
        let mut v = vec![];
        match self.how {
            0 => {
                r.read_to_end(&mut v)?;
            }
            1 | 2 => loop {
                // pieces; an empty read in between asks for nothing
                let mut b = vec![0; self.piece.max(1)];
                if self.how == 2 && r.read(&mut [])? != 0 {
                    panic!("bytes for an empty buffer");
                }
                let n = r.read(&mut b)?;
                if n == 0 {
                    break;
                }
                v.extend(&b[..n]);
                if let Some((at, k)) = self.fail {
                    if v.len() >= at {
                        self.seen.borrow_mut().push(v);
                        return Err(err(k));
                    }
                }
            },
            3 => {
                for b in r.by_ref().bytes() {
                    v.push(b?);
                }
                // end of stream stays end of stream
                if r.read(&mut [0; 4])? != 0 {
                    panic!("bytes after end of stream");
                }
            }
            _ => {
                // a fixed number of bytes: I/O errors pass
                let mut b = vec![0; self.piece];
                r.read_exact(&mut b)?;
                v = b;
                r.read_to_end(&mut v)?;
            }
        }
        self.seen.borrow_mut().push(v.clone());
        Ok(v)
    }
}
fn mono_dec(ch: &mut Ch, how: usize) -> Case {
    let len = 5 - ch.pick(6);
    let inp: Vec<u8> = (0..len as u8).map(|i| 16 + i).collect();
    let piece = ch.pick(4);
    let fail = if (how == 1 || how == 2) && ch.pick_bool() { Some((1 + ch.pick(3), KINDS[ch.pick(7)])) } else { None };
    let mut d = Reading { how, piece, fail, seen: RefCell::default() }.into_dec();
    let fails = fail.is_some_and(|(at, _)| len >= at) || how == 4 && len < piece;
    let want = if fails { None } else { Some(inp.clone()) };
    let kinds = match fail {
        Some((_, x)) => k(x),
        None => EOS,
    };
    feed(ch, &mut d, &inp, &want, 5, kinds)?;
    let seen = d.inner_ref().seen.borrow().clone();
    if !fails && seen != [inp.clone()] {
        return Err(format!("the user's decoder saw {seen:?}, the stream was {inp:?}"));
    }
    if !fails {
        let again = vec![9u8, 8];
        d.inner_mut().how = 0;
        feed(ch, &mut d, &again, &Some(again.clone()), 0, ANY)?;
        if d.into_inner().seen.into_inner() != [inp.clone(), again] {
            return Err("second stream".into());
        }
    }
    ch.outcome(&(len, fails));
    ch.valid();
    Ok(())
}
trait IntoDec: MonolithicDecode + Sized {
    fn into_dec(self) -> MonolithicDecoder<Self> {
        MonolithicDecoder::new(self)
    }
}
impl IntoDec for Reading {}
/// Writes pieces; fails after some; counts its calls.
#[derive(Default)]
struct Writing {
    calls: RefCell<usize>,
}
#[derive(Clone, Debug)]
struct Piecewise {
    pieces: Vec<usize>,
    fail: Option<ErrorKind>,
    plain: bool,
}
impl Piecewise {
    fn bytes(&self) -> Vec<u8> {
        (0..self.pieces.iter().sum::<usize>()).map(|i| (i * 7 + i / 251) as u8).collect()
    }
}
impl MonolithicEncode for Writing {
    type Item = Piecewise;
    fn monolithic_encode<W: Write>(&self, item: &Piecewise, mut w: W) -> bytecodec::Result<()> {
        *self.calls.borrow_mut() += 1;
        let b = item.bytes();
        let mut off = 0;
        for p in &item.pieces {
            let mut piece = &b[off..off + p];
            off += p;
            if item.plain {
                // plain writes may be short, never zero
                while !piece.is_empty() {
                    let n = w.write(piece)?;
                    if n == 0 || n > piece.len() {
                        panic!("the writer accepted {n} of {} bytes", piece.len());
                    }
                    piece = &piece[n..];
                }
            } else {
                w.write_all(piece)?;
            }
            w.flush()?;
        }
        match item.fail {
            Some(k) => Err(err(k)),
            None => Ok(()),
        }
    }
}
fn mono_enc(ch: &mut Ch) -> Case {
    let n = ch.pick(4);
    let item = Piecewise { pieces: (0..n).map(|_| 3 - ch.pick(4)).collect(), fail: if ch.pick_bool() { Some(KINDS[ch.pick(7)]) } else { None }, plain: ch.pick_bool() };
    let mut e = MonolithicEncoder::new(Writing::default());
    e.start_encoding(item.clone()).map_err(|e| format!("start: {:?}", e.kind()))?;
    let want = item.bytes();
    if let Some(k) = item.fail {
        let mut buf = vec![0; 4 - ch.pick(5)];
        let r = e.encode(&mut buf, Eos::new(false));
        ch.step();
        match r {
            Err(x) if *x.kind() == k => {}
            r => return Err(format!("the user's encoder failed with {k:?}, reported {}", res(&r))),
        }
    } else {
        let at = match ch.pick(2) {
            0 => None,
            _ => Some(ch.pick(want.len() + 2)),
        };
        let done = drain(ch, &mut e, &want, 6, at, Some(&|| item.clone()))?;
        if done && at.is_none() {
            let two = Piecewise { pieces: vec![2], fail: None, plain: false };
            e.start_encoding(two.clone()).map_err(|e| format!("second start: {:?}", e.kind()))?;
            drain(ch, &mut e, &two.bytes(), 2, None, None)?;
            if *e.inner_ref().calls.borrow() != 2 {
                return Err(format!("the user's encoder was called {} times for two items", e.inner_ref().calls.borrow()));
            }
            *e.inner_mut().calls.borrow_mut() = 77;
            if *e.into_inner().calls.borrow() != 77 {
                return Err("inner encoder lost".into());
            }
        }
    }
    ch.outcome(&want);
    ch.valid();
    Ok(())
}
fn mono_big(ch: &mut Ch, n: usize) -> Case {
    if ch.pick_bool() {
        let item = Piecewise { pieces: vec![n / 2, n - n / 2], fail: None, plain: ch.pick_bool() };
        let want = item.bytes();
        let mut e = MonolithicEncoder::new(Writing::default());
        e.start_encoding(item.clone()).map_err(|e| format!("start: {:?}", e.kind()))?;
        let at = match ch.pick(4) {
            0 => None,
            1 => Some(n),
            2 => Some(n.saturating_sub(1)),
            _ => Some(n / 2),
        };
        drain(ch, &mut e, &want, 0, at, None)?;
    } else {
        let inp: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
        let mut d = Reading { how: ch.pick(2), piece: 1000, fail: None, seen: RefCell::default() }.into_dec();
        feed(ch, &mut d, &inp, &Some(inp.clone()), 0, ANY)?;
    }
    ch.valid();
    Ok(())
}
struct Bad(usize);
impl Serialize for Bad {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{Error, SerializeSeq};
        let mut q = s.serialize_seq(Some(self.0 + 1))?;
        for i in 0..self.0 {
            q.serialize_element(&(i as u8))?;
        }
        Err(S::Error::custom("no"))
    }
}
fn unserializable(ch: &mut Ch) -> Case {
    let n = ch.pick(4);
    let size = ch.pick(8);
    let mut buf = vec![0; size];
    let r = if ch.pick_bool() {
        let mut e = JsonEncoder::with_item(Bad(n)).map_err(|e| format!("start: {:?}", e.kind()))?;
        e.encode(&mut buf, Eos::new(false))
    } else {
        let mut e = BincodeEncoder::with_item(Bad(n)).map_err(|e| format!("start: {:?}", e.kind()))?;
        e.encode(&mut buf, Eos::new(false))
    };
    ch.step();
    ch.state(&(n, size));
    match r {
        Err(e) if *e.kind() == ErrorKind::InvalidInput => {}
        r => return Err(format!("an item that cannot be serialized: {}", res(&r))),
    }
    // and through the one-call drivers
    if let Ok(v) = JsonDecoder::<u8>::new().decode_from_bytes(b"300") {
        return Err(format!("300 decoded as {v}"));
    }
    ch.outcome(&1);
    ch.valid();
    Ok(())
}
