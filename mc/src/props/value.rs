//! Contents: every byte value, and every notable character, where an item begins, ends and in between.
//! What only passes bytes on must not look at them.
use crate::core::*;
use crate::val::*;
use bytecodec::bytes::*;
use bytecodec::fixnum::{U8Decoder, U8Encoder};
use bytecodec::io::*;
use bytecodec::monolithic::*;
use bytecodec::tuple::{TupleDecoder, TupleEncoder};
use bytecodec::{Decode, DecodeExt, Encode, EncodeExt, Eos, Error, SizedEncode};
use std::io::{Read, Write};
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

pub fn lens(th: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=17).collect();
    v.extend([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025]);
    if th {
        v.extend(18..=70);
        v.extend([511, 512, 513, 2048, 4095, 4096, 4097, 8193]);
        v.sort_unstable();
        v.dedup();
    }
    v
}
/// As many one-byte items there may be in one: code may recurse over them.
const MANY: usize = 1 << 18;
/// Items too large to try every byte value in.
pub fn huge(th: bool) -> Vec<usize> {
    let mut v = vec![131_071, 131_072, 131_073, 1 << 18, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 21) + 7];
    if th {
        v.extend([(1 << 19) + 1, (1 << 22) + 1, (1 << 24) - 1, (1 << 24) + 1]);
    }
    v
}
/// `n` bytes, one value of which stands out; bytes that tell their positions apart if there are very many.
pub fn contents(ch: &mut Ch, n: usize) -> Option<Vec<u8>> {
    if n > 100_000 {
        return Some((0..n).map(|i| (i * 7 + i / 251 + i / 65_521) as u8).collect());
    }
    let b = ch.pick(256) as u8;
    let fill = *ch.of(&[0x61, 0, 0xFF]);
    let mut v = vec![fill; n];
    let place = ch.pick(if n == 1 { 1 } else if n == 2 { 4 } else { 5 });
    if b == fill && place > 0 {
        return None;
    }
    match place {
        0 => v[n - 1] = b,
        1 => v[0] = b,
        2 => (v[0], v[n - 1]) = (b, b),
        3 => v.fill(b),
        _ => v[n / 2] = b,
    }
    Some(v)
}

struct Raw;
impl MonolithicDecode for Raw {
    type Item = Vec<u8>;
    fn monolithic_decode<R: Read>(&self, mut r: R) -> bytecodec::Result<Vec<u8>> {
        let mut v = vec![];
        r.read_to_end(&mut v).map_err(Error::from)?;
        Ok(v)
    }
}
impl MonolithicEncode for Raw {
    type Item = Vec<u8>;
    fn monolithic_encode<W: Write>(&self, item: &Vec<u8>, mut w: W) -> bytecodec::Result<()> {
        w.write_all(item).map_err(Error::from)
    }
}

pub const DECODERS: [&str; 13] = [
    "rest", "bytes", "bytes in a frame", "collect", "collectn", "rest in a frame", "rest under a limit", "peekable", "sliced", "monolithic", "tuple",
    "a length, then bytes", "copyable",
];
pub fn decoding(ch: &mut Ch, kind: usize, n: usize) -> Case {
    let Some(v) = contents(ch, n) else { return ch.skip() };
    if n > MANY && [3, 4].contains(&kind) {
        return ch.skip();
    }
    match kind {
        0 => dec(ch, RemainingBytesDecoder::new(), &v, |x| x),
        1 => dec(ch, BytesDecoder::new(vec![0; n]), &v, |x| x),
        2 => dec(ch, BytesDecoder::new(vec![0; n]).length(n as u64), &v, |x| x),
        3 => dec(ch, U8Decoder::new().collect::<Vec<_>>(), &v, |x| x),
        4 => dec(ch, U8Decoder::new().collectn::<Vec<_>>(n), &v, |x| x),
        5 => dec(ch, RemainingBytesDecoder::new().length(n as u64), &v, |x| x),
        6 => dec(ch, RemainingBytesDecoder::new().max_bytes(n as u64), &v, |x| x),
        7 => dec(ch, RemainingBytesDecoder::new().peekable(), &v, |x| x),
        8 => {
            let mut s = RemainingBytesDecoder::new().slice();
            s.set_consumable_bytes(u64::MAX);
            dec(ch, s, &v, |x| x)
        }
        9 => dec(ch, MonolithicDecoder::new(Raw), &v, |x| x),
        10 => dec(ch, TupleDecoder::new((U8Decoder::new(), BytesDecoder::new(vec![0; n - 1]))), &v, |(a, b)| [&[a], &b[..]].concat()),
        11 => dec(
            ch,
            U8Decoder::new().and_then(move |a| RemainingBytesDecoder::new().map(move |b: Vec<u8>| [&[a], &b[..]].concat())),
            &v,
            |x| x,
        ),
        _ => match n {
            1 => dec(ch, CopyableBytesDecoder::new([0; 1]), &v, |x| x.to_vec()),
            2 => dec(ch, CopyableBytesDecoder::new([0; 2]), &v, |x| x.to_vec()),
            7 => dec(ch, CopyableBytesDecoder::new([0; 7]), &v, |x| x.to_vec()),
            16 => dec(ch, CopyableBytesDecoder::new([0; 16]), &v, |x| x.to_vec()),
            32 => dec(ch, CopyableBytesDecoder::new([0; 32]), &v, |x| x.to_vec()),
            1024 => dec(ch, CopyableBytesDecoder::new([0; 1024]), &v, |x| x.to_vec()),
            _ => ch.skip(),
        },
    }
}
pub fn dec<D: Decode>(ch: &mut Ch, mut d: D, v: &[u8], un: impl Fn(D::Item) -> Vec<u8>) -> Case {
    let n = v.len();
    let how = ch.pick(if n > 3 { 6 } else { 5 });
    let item = match how {
        0..=2 => {
            // at once; all but the last byte, then the last; the end in a call of its own
            let mut off = 0;
            let mut r = Ok(());
            let ks = match how {
                1 if n > 100_000 => *ch.of(&[[n - 1, 1], [1, n - 1], [65_536, n - 65_536], [65_537, n - 65_537], [100_000, n - 100_000]]),
                1 if n > 1 => [n - 1, 1],
                _ => [n, 0],
            };
            for k in ks {
                if r.is_ok() && !d.is_idle() {
                    let last = if how == 2 { off == n } else { off + k == n };
                    r = d.decode(&v[off..off + k], Eos::new(last)).map(|s| off += s);
                    ch.step();
                }
            }
            r.and_then(|_| d.finish_decoding())
        }
        3 => d.decode_from_bytes(v),
        4 => d.decode_exact(v),
        _ => {
            let mut b = ReadBuf::new(vec![0; n / 2 + 1]);
            let mut src = v;
            let mut r = Ok(());
            for _ in 0..n + 4 {
                if r.is_err() || d.is_idle() {
                    break;
                }
                r = b.fill(&mut src).and_then(|_| d.decode_from_read_buf(&mut b));
                ch.step();
            }
            r.and_then(|_| d.finish_decoding())
        }
    };
    ch.steps(1);
    ch.state(&(n, how, fx(v)));
    ch.valid();
    match item.map(un) {
        Ok(x) if x == v => Ok(()),
        Ok(x) => Err(format!("{} became {}", cut(v), cut(&x))),
        Err(e) => Err(format!("{} rejected with {:?}", cut(v), e.kind())),
    }
}
fn cut(v: &[u8]) -> String {
    if v.len() <= 20 {
        hex(v)
    } else {
        format!("{}..{} ({} bytes)", hex(&v[..9]), hex(&v[v.len() - 9..]), v.len())
    }
}

pub const ENCODERS: [&str; 11] = [
    "bytes", "borrowed bytes", "repeated", "bytes in a frame", "bytes under a limit", "pre_encode", "sliced", "monolithic", "tuple", "optional", "last",
];
pub fn encoding(ch: &mut Ch, kind: usize, n: usize) -> Case {
    let Some(v) = contents(ch, n) else { return ch.skip() };
    let own = v.clone();
    if n > MANY && kind == 2 {
        return ch.skip();
    }
    match kind {
        0 => enc(ch, BytesEncoder::new(), own, &v),
        1 => enc(ch, BytesEncoder::new(), Box::<[u8]>::from(own), &v),
        2 => enc(ch, U8Encoder::new().repeat(), own.into_iter(), &v),
        3 => enc(ch, BytesEncoder::new().length(n as u64), own, &v),
        4 => enc(ch, BytesEncoder::new().max_bytes(n as u64), own, &v),
        5 => enc(ch, BytesEncoder::new().pre_encode(), own, &v),
        6 => {
            let mut s = BytesEncoder::new().slice();
            s.set_consumable_bytes(u64::MAX);
            enc(ch, s, own, &v)
        }
        7 => enc(ch, MonolithicEncoder::new(Raw), own, &v),
        8 => enc(ch, TupleEncoder::new((U8Encoder::new(), BytesEncoder::new())), (own[0], own[1..].to_vec()), &v),
        9 => enc(ch, BytesEncoder::new().optional(), Some(own), &v),
        _ => {
            let mut e = BytesEncoder::new().last(own);
            let out = calls(ch, &mut e, n)?;
            same(ch, &v, Ok(out))
        }
    }
}
/// Three ways of choosing the buffers.
fn calls<E: Encode>(ch: &mut Ch, e: &mut E, n: usize) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    let sizes = match ch.pick(if n > 100_000 { 6 } else { 3 }) {
        0 => vec![n + 2],
        1 => vec![n.max(2) - 1, 1, 1],
        2 => vec![1, n, 1],
        3 => vec![65_536, n],
        4 => vec![65_537, n],
        _ => vec![100_000, n],
    };
    for s in sizes {
        let mut b = vec![0x55; s];
        let k = e.encode(&mut b, Eos::new(false)).map_err(|e| format!("failed with {:?}", e.kind()))?;
        ch.step();
        out.extend_from_slice(&b[..k]);
    }
    if !e.is_idle() {
        return Err(format!("not idle after {} of {n} bytes", out.len()));
    }
    Ok(out)
}
fn same(ch: &mut Ch, v: &[u8], r: bytecodec::Result<Vec<u8>>) -> Case {
    ch.steps(1);
    ch.valid();
    match r {
        Ok(x) if x == v => Ok(()),
        Ok(x) => Err(format!("{} became {}", cut(v), cut(&x))),
        Err(e) => Err(format!("{} rejected with {:?}", cut(v), e.kind())),
    }
}
pub fn enc<E: Encode>(ch: &mut Ch, mut e: E, item: E::Item, v: &[u8]) -> Case {
    let n = v.len();
    let how = ch.pick(4);
    ch.state(&(n, how, fx(v)));
    let r = match how {
        0 => e.encode_into_bytes(item),
        1 => {
            let mut out = vec![];
            e.start_encoding(item).and_then(|_| e.encode_all(&mut out)).map(|_| out)
        }
        2 => {
            let mut b = WriteBuf::new(vec![0; n / 2 + 1]);
            let mut out = vec![];
            let mut r = e.start_encoding(item);
            for _ in 0..2 * n + 4 {
                if r.is_err() || e.is_idle() && b.is_empty() {
                    break;
                }
                r = e.encode_to_write_buf(&mut b).and_then(|_| b.flush(&mut out));
                ch.step();
            }
            r.map(|_| out)
        }
        _ => {
            e.start_encoding(item).map_err(|e| format!("refused with {:?}", e.kind()))?;
            Ok(calls(ch, &mut e, n)?)
        }
    };
    same(ch, v, r)
}

// ---------------------------------------------------------------- buffers

/// Through a read buffer.
pub fn reads(ch: &mut Ch, n: usize, poll: bool) -> Case {
    let Some(v) = contents(ch, n) else { return ch.skip() };
    let cap = [n / 2 + 1, n, n + 1][ch.pick(3)];
    let step = [n + 1, if n > 100_000 { 65_537 } else { 1 }, n / 3 + 1][ch.pick(3)];
    let how = ch.pick(if n > 100_000 { 2 } else { 3 });
    let mut b = ReadBuf::new(vec![0x55; cap]);
    let mut src = &v[..];
    let mut out = vec![];
    let mut cx = Context::from_waker(Waker::noop());
    ch.state(&(n, cap, step, how, fx(&v)));
    while out.len() < n {
        let (had, came) = (b.len(), src.len());
        if poll {
            if b.poll_fill(Pin::new(&mut src), &mut cx).map(|r| r.is_ok()) != Poll::Ready(true) {
                return Err("poll_fill failed".into());
            }
        } else {
            b.fill(&mut src).map_err(|e| format!("fill: {:?}", e.kind()))?;
        }
        ch.step();
        if b.len() != had + came - src.len() || b.is_empty() {
            return Err(format!("{} bytes in the buffer of {cap}, {} taken from {}", b.len(), came - src.len(), cut(&v)));
        }
        let k = step.min(b.len());
        match how {
            0 => {
                let mut x = vec![0xEE; step];
                let m = b.read(&mut x).map_err(|e| e.to_string())?;
                out.extend_from_slice(&x[..m]);
            }
            1 => {
                let mut d = BytesDecoder::new(vec![0; k]);
                d.decode_from_read_buf(&mut b).map_err(|e| format!("decode: {:?}", e.kind()))?;
                out.extend(d.finish_decoding().map_err(|e| format!("finish: {:?}", e.kind()))?);
            }
            _ => {
                let mut d = U8Decoder::new();
                d.decode_from_read_buf(&mut b).map_err(|e| format!("decode: {:?}", e.kind()))?;
                out.push(d.finish_decoding().map_err(|e| format!("finish: {:?}", e.kind()))?);
            }
        }
        ch.step();
        if out[..] != v[..out.len().min(n)] {
            return Err(format!("{} became {}", cut(&v), cut(&out)));
        }
    }
    ch.valid();
    if b.is_empty() && src.is_empty() {
        Ok(())
    } else {
        Err(format!("{} bytes too many", b.len()))
    }
}
/// Through a write buffer.
pub fn writes(ch: &mut Ch, n: usize, poll: bool) -> Case {
    let Some(v) = contents(ch, n) else { return ch.skip() };
    let cap = [n / 2 + 1, n, n + 1][ch.pick(3)];
    let step = [n + 1, if n > 100_000 { 65_537 } else { 1 }, n / 3 + 1][ch.pick(3)];
    let how = ch.pick(2);
    let mut b = WriteBuf::new(vec![0x55; cap]);
    let mut out = vec![];
    let mut rest = &v[..];
    let mut cx = Context::from_waker(Waker::noop());
    ch.state(&(n, cap, step, how, fx(&v)));
    while !rest.is_empty() {
        let k = step.min(rest.len());
        let m = if how == 0 {
            b.write(&rest[..k]).map_err(|e| e.to_string())?
        } else {
            let mut e = BytesEncoder::new();
            e.start_encoding(&rest[..k]).map_err(|e| format!("start: {:?}", e.kind()))?;
            e.encode_to_write_buf(&mut b).map_err(|e| format!("encode: {:?}", e.kind()))?;
            k - e.exact_requiring_bytes() as usize
        };
        ch.step();
        if m != k.min(cap) || b.len() != m {
            return Err(format!("{m} of {k} bytes of {} written into an empty buffer of {cap}, {} now in it", cut(&v), b.len()));
        }
        rest = &rest[m..];
        if poll {
            if b.poll_flush(Pin::new(&mut out), &mut cx).map(|r| r.is_ok()) != Poll::Ready(true) {
                return Err("poll_flush failed".into());
            }
        } else {
            b.flush(&mut out).map_err(|e| format!("flush: {:?}", e.kind()))?;
        }
        ch.step();
        if !b.is_empty() || out.len() != n - rest.len() || out[..] != v[..out.len()] {
            return Err(format!("{} written out as {}", cut(&v), cut(&out)));
        }
    }
    ch.valid();
    Ok(())
}

// ---------------------------------------------------------------- text

/// Characters that some programs treat specially.
pub fn characters() -> Vec<char> {
    let mut v: Vec<char> = (0u8..=0x7F).map(char::from).collect();
    v.extend("\u{80}\u{85}\u{A0}\u{AD}\u{FF}\u{301}\u{3B1}\u{7FF}\u{800}\u{200B}\u{200D}\u{2028}\u{2029}\u{3000}\u{D7FF}\u{E000}\u{FEFF}\u{FFFD}\u{FFFE}\u{FFFF}\u{10000}\u{1F600}\u{10FFFF}".chars());
    v
}
/// A text of `n` characters.
pub fn text_of(ch: &mut Ch, n: usize) -> Option<String> {
    if n > 100_000 {
        return Some((0..n).map(|i| ['a', '\u{E9}', 'b', '\u{20AC}', '\u{1F600}', 'c'][(i + i / 251) % 6]).collect());
    }
    let cs = characters();
    let c = *ch.of(&cs);
    let fill = *ch.of(&['a', ' ', 'é']);
    let place = ch.pick(if n == 1 { 1 } else if n == 2 { 4 } else { 5 });
    if c == fill && place > 0 {
        return None;
    }
    let mut v = vec![fill; n];
    match place {
        0 => v[n - 1] = c,
        1 => v[0] = c,
        2 => (v[0], v[n - 1]) = (c, c),
        3 => v.fill(c),
        _ => v[n / 2] = c,
    }
    Some(v.into_iter().collect())
}
pub fn text(ch: &mut Ch, n: usize) -> Case {
    let Some(s) = text_of(ch, n) else { return ch.skip() };
    let v = s.clone().into_bytes();
    match ch.pick(7) {
        0 => dec(ch, Utf8Decoder::new(), &v, String::into_bytes),
        1 => dec(ch, Utf8Decoder::with_bytes_decoder(BytesDecoder::new(vec![0; v.len()])), &v, String::into_bytes),
        2 => dec(ch, Utf8Decoder::new().length(v.len() as u64), &v, String::into_bytes),
        3 => enc(ch, Utf8Encoder::new(), s, &v),
        4 => enc(ch, Utf8Encoder::new().length(v.len() as u64), Box::<str>::from(s), &v),
        5 => enc(ch, Utf8Encoder::new().max_bytes(v.len() as u64), s, &v),
        _ => sized(ch, Utf8Encoder::new(), s, &v),
    }
}
fn sized<E: SizedEncode>(ch: &mut Ch, mut e: E, item: E::Item, v: &[u8]) -> Case {
    e.start_encoding(item).map_err(|e| format!("refused with {:?}", e.kind()))?;
    if e.exact_requiring_bytes() != v.len() as u64 {
        return Err(format!("{} announced as {} bytes", cut(v), e.exact_requiring_bytes()));
    }
    let out = calls(ch, &mut e, v.len())?;
    same(ch, v, Ok(out))
}
