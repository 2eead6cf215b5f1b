//! C25: UTF-8 strings and padding.
use crate::core::*;
use crate::drive::{bc, finite};
use crate::props::{scale, value};
use crate::props::serial::drain;
use crate::val::*;
use bytecodec::bytes::*;
use bytecodec::io::{IoDecodeExt, IoEncodeExt, ReadBuf, WriteBuf};
use bytecodec::padding::*;
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, ErrorKind, SizedEncode};

/// The bytes at which the rules of UTF-8 change.
const CLASSES: [u8; 25] = [
    0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5,
    0xFF,
];
const FEW: [u8; 14] = [0x41, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC2, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xFF];

pub fn c25(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    b.push("UTF-8 decoding: all strings of 0..=2 bytes, all strings of 3 and 4 bytes over the 25 class boundary bytes, of 5 (6) bytes over 14 (9) of them: every chunking, 3 ways of announcing the end; all of them up to 3 bytes in 8 further settings (length frame, other byte decoders, drivers, read buffers)".into());
    b.push("every Unicode scalar value as an item of encoder and decoder, cut at every byte; all surrogates rejected; strings of up to 3 boundary characters in 5 string types, every buffer cut".into());
    b.push("padding decoder: expected byte unset or any of the 256: all streams of up to 4 (5) bytes over {expected, 3 others}, every chunking, end announcements, early probes, second item, changed byte; any single deviating byte".into());
    b.push("padding encoder: any byte, any 4 (5) buffers of 0..=3 bytes, any announcement, busy starts, second item; inside frames of 0..=5 bytes and tuples".into());
    b.push("the size ladder for all four, with characters or deviations at every boundary".into());
    let mut us = vec![];
    for lead in 0..=255u8 {
        us.push(unit(format!("utf8 2 bytes {lead:02x}"), move |ch| {
            let mut v = vec![lead];
            if ch.pick_bool() {
                v.push(ch.pick(256) as u8);
            }
            text(ch, &v)
        }));
    }
    us.push(unit("utf8 empty", |ch| text(ch, &[])));
    let six = [0x41, 0x80, 0x90, 0xA0, 0xBF, 0xC2, 0xE0, 0xED, 0xF4];
    for &lead in &CLASSES {
        for n in 3..=4 {
            us.push(unit(format!("utf8 {n} bytes {lead:02x}"), move |ch| {
                let mut v = vec![lead];
                v.extend((1..n).map(|_| *ch.of(&CLASSES)));
                text(ch, &v)
            }));
        }
        us.push(unit(format!("utf8 3 bytes in settings {lead:02x}"), move |ch| {
            let mut v = vec![lead];
            v.extend((0..ch.pick(3)).map(|_| *ch.of(&CLASSES)));
            settings(ch, &v)
        }));
    }
    for &lead in &FEW {
        for &second in &FEW {
            us.push(unit(format!("utf8 5 bytes {lead:02x}{second:02x}"), move |ch| {
                let mut v = vec![lead, second];
                v.extend((0..3).map(|_| *ch.of(&FEW)));
                text(ch, &v)
            }));
        }
    }
    if th {
        for &lead in &six {
            for &second in &six {
                us.push(unit(format!("utf8 6 bytes {lead:02x}{second:02x}"), move |ch| {
                    let mut v = vec![lead, second];
                    v.extend((0..4).map(|_| *ch.of(&six)));
                    text(ch, &v)
                }));
            }
        }
    }
    for plane in 0..68u32 {
        us.push(unit(format!("scalar values {:x}..", plane << 14), move |ch| {
            let c = (plane << 14) + ch.pick(1 << 14) as u32;
            scalar(ch, c)
        }));
    }
    for ty in 0..5 {
        us.push(unit(format!("string type {ty}"), move |ch| strings(ch, ty)));
    }
    for e in 0..=256usize {
        us.push(unit(format!("padding decoder {e}"), move |ch| pad_dec(ch, e.checked_sub(1).map(|b| b as u8), 4 + usize::from(th && e < 2))));
    }
    for e in 0..=255u8 {
        us.push(unit(format!("padding deviation {e}"), move |ch| pad_any(ch, e)));
        us.push(unit(format!("padding encoder {e}"), move |ch| pad_enc(ch, e, if e == 7 || th { 4 } else { 3 } + usize::from(th && e == 7))));
    }
    us.push(unit("padding frames", pad_frames));
    us.push(unit("padding framed streams", pad_framed_dec));
    b.push("every ASCII character and 23 others first, last, at both ends, in the middle or everywhere of texts of 1..=17 and around the powers of two up to 1024 (8192) characters: 6 ways of decoding, 6 of encoding".into());
    for n in value::lens(th) {
        us.push(unit(format!("characters {n}"), move |ch| value::text(ch, n)));
    }
    b.push("texts and padding of 2^17..2^21 (2^24) characters or bytes, give or take one".into());
    for n in value::huge(th) {
        us.push(unit(format!("huge characters {n}"), move |ch| value::text(ch, n)));
        us.push(unit(format!("huge {n} padding"), move |ch| pad_ladder(ch, n)));
    }
    for n in scale::ladder(th) {
        us.push(unit(format!("ladder {n} text"), move |ch| text_ladder(ch, n)));
        us.push(unit(format!("ladder {n} encoder"), move |ch| enc_ladder(ch, n)));
        us.push(unit(format!("ladder {n} padding"), move |ch| pad_ladder(ch, n)));
    }
    us
}

// ---------------------------------------------------------------- UTF-8

/// An independent decision (Unicode 15, table 3-7).
fn table(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let r = |k: usize, lo: u8, hi: u8| b.get(i + k).is_some_and(|x| (lo..=hi).contains(x));
        let n = match b[i] {
            0x00..=0x7F => 1,
            0xC2..=0xDF if r(1, 0x80, 0xBF) => 2,
            0xE0 if r(1, 0xA0, 0xBF) && r(2, 0x80, 0xBF) => 3,
            0xE1..=0xEC | 0xEE..=0xEF if r(1, 0x80, 0xBF) && r(2, 0x80, 0xBF) => 3,
            0xED if r(1, 0x80, 0x9F) && r(2, 0x80, 0xBF) => 3,
            0xF0 if r(1, 0x90, 0xBF) && r(2, 0x80, 0xBF) && r(3, 0x80, 0xBF) => 4,
            0xF1..=0xF3 if r(1, 0x80, 0xBF) && r(2, 0x80, 0xBF) && r(3, 0x80, 0xBF) => 4,
            0xF4 if r(1, 0x80, 0x8F) && r(2, 0x80, 0xBF) && r(3, 0x80, 0xBF) => 4,
            _ => return false,
        };
        i += n;
    }
    true
}
/// The item, `None` for invalid input.
fn want(v: &[u8]) -> Option<String> {
    let s = std::str::from_utf8(v).ok().map(String::from);
    assert_eq!(s.is_some(), table(v), "HARNESS: UTF-8 table");
    s
}
fn judge(ch: &mut Ch, v: &[u8], r: bytecodec::Result<String>) -> Case {
    let w = want(v);
    ch.outcome(&(w.is_some(), r.is_ok()));
    ch.valid();
    match (r, w) {
        (Ok(s), Some(w)) if s == w => Ok(()),
        (Err(e), None) if *e.kind() == ErrorKind::InvalidInput => Ok(()),
        (r, w) => Err(format!("{} gave {}, expected {}", hex(v), res(&r), w.map_or("InvalidInput".into(), |w| format!("{w:?}")))),
    }
}
/// Feeds a stream in chosen chunks.
fn feed<D: Decode>(ch: &mut Ch, d: &mut D, v: &[u8], mode: usize) -> Result<bytecodec::Result<D::Item>, String> {
    let mut off = 0;
    for _ in 0..2 * v.len() + 3 {
        let rest = v.len() - off;
        let n = if rest == 0 { 0 } else { rest - ch.pick(rest) };
        let eos = match mode {
            0 => Eos::new(n == rest),
            1 => Eos::new(rest == 0),
            _ => finite((rest - n) as u64),
        };
        let r = d.decode(&v[off..off + n], eos);
        ch.step();
        let idle = d.is_idle();
        ch.log(|| format!("decode({n}, {eos:?}) -> {} idle={idle}", res(&r)));
        ch.state(&(off, n, mode, r.is_ok(), idle));
        match r {
            Err(e) => return Ok(Err(e)),
            Ok(k) if k != n => return Err(format!("{k} of {n} bytes consumed")),
            Ok(_) => off += n,
        }
        if idle {
            if !eos.is_reached() {
                return Err("ready before the end of the stream".into());
            }
            return Ok(d.finish_decoding());
        }
        if eos.is_reached() {
            return Err("not ready at the end of the stream".into());
        }
    }
    Err("no progress".into())
}
fn text(ch: &mut Ch, v: &[u8]) -> Case {
    let mode = ch.pick(3);
    let mut d = Utf8Decoder::new();
    let r = feed(ch, &mut d, v, mode)?;
    let ok = r.is_ok();
    judge(ch, v, r)?;
    if ok && v.len() < 3 {
        // the next item: nothing is left over
        let r = feed(ch, &mut d, b"ab", mode)?;
        judge(ch, b"ab", r)?;
    }
    Ok(())
}
fn chunks<D: Decode<Item = String>>(ch: &mut Ch, mut d: D, v: &[u8]) -> bytecodec::Result<String> {
    let cut = ch.pick(v.len() + 1);
    ch.steps(2);
    for (c, last) in [(&v[..cut], false), (&v[cut..], true)] {
        if !d.is_idle() {
            d.decode(c, Eos::new(last))?;
        }
    }
    d.finish_decoding()
}
fn settings(ch: &mut Ch, v: &[u8]) -> Case {
    let n = v.len();
    let r = match ch.pick(8) {
        0 => chunks(ch, Utf8Decoder::new().length(n as u64), v),
        1 => chunks(ch, Utf8Decoder::with_bytes_decoder(BytesDecoder::new(vec![0; n])), v),
        2 => chunks(ch, Utf8Decoder::with_bytes_decoder(RemainingBytesDecoder::new().length(n as u64)), v),
        3 => chunks(ch, Utf8Decoder::with_bytes_decoder(bytecodec::fixnum::U8Decoder::new().collect::<Vec<u8>>()), v),
        4 => chunks(ch, Utf8Decoder::with_bytes_decoder(bytecodec::fixnum::U8Decoder::new().collectn::<Vec<u8>>(n)), v),
        5 => Utf8Decoder::new().decode_from_bytes(v),
        6 => Utf8Decoder::new().decode_exact(v),
        _ => {
            let cap = 1 + ch.pick(3);
            let mut b = ReadBuf::new(vec![0; cap]);
            let mut d = Utf8Decoder::new();
            let mut src = v;
            let mut r = Ok(());
            for _ in 0..10 {
                r = b.fill(&mut src).and_then(|()| d.decode_from_read_buf(&mut b));
                if r.is_err() || d.is_idle() {
                    break;
                }
            }
            r.and_then(|()| d.finish_decoding())
        }
    };
    ch.steps(2);
    judge(ch, v, r)
}
fn scalar(ch: &mut Ch, c: u32) -> Case {
    let Some(c) = char::from_u32(c) else {
        if c > 0x10FFFF {
            return ch.skip();
        }
        // surrogates have a three byte form which is not UTF-8
        let v = [0xE0 | (c >> 12) as u8, 0x80 | (c >> 6 & 0x3F) as u8, 0x80 | (c & 0x3F) as u8];
        return text_cut(ch, &v);
    };
    let s = c.to_string();
    let mut e = Utf8Encoder::<String>::with_item(s.clone()).map_err(|e| format!("{:?}", e.kind()))?;
    let cut = ch.pick(s.len());
    let mut out = vec![];
    for n in [cut, s.len() - cut] {
        let mut b = vec![0xEE; n];
        let k = e.encode(&mut b, Eos::new(n != cut)).map_err(|e| format!("{:?}", e.kind()))?;
        out.extend(&b[..k]);
    }
    ch.steps(2);
    if out != s.as_bytes() || !e.is_idle() {
        return Err(format!("{c:?} encoded as {}", hex(&out)));
    }
    let mut d = Utf8Decoder::new();
    d.decode(&out[..cut], Eos::new(false)).map_err(|e| format!("{:?}", e.kind()))?;
    d.decode(&out[cut..], Eos::new(true)).map_err(|e| format!("{:?}", e.kind()))?;
    ch.steps(2);
    let r = d.finish_decoding();
    judge(ch, &out, r)
}
fn text_cut(ch: &mut Ch, v: &[u8]) -> Case {
    let cut = ch.pick(v.len() + 1);
    let mut d = Utf8Decoder::new();
    ch.steps(2);
    let r = d.decode(&v[..cut], Eos::new(false)).and_then(|_| d.decode(&v[cut..], Eos::new(true))).and_then(|_| d.finish_decoding());
    judge(ch, v, r)
}
const CHARS: [char; 10] = ['\0', 'a', '\u{7F}', '\u{80}', '\u{7FF}', '\u{800}', '\u{D7FF}', '\u{FFFF}', '\u{10000}', '\u{10FFFF}'];
fn strings(ch: &mut Ch, ty: usize) -> Case {
    let n = ch.pick(4);
    let s: String = (0..n).map(|_| if n < 3 { *ch.of(&CHARS) } else { *ch.of(&CHARS[1..5]) }).collect();
    fn go<S: AsRef<str>>(ch: &mut Ch, f: &dyn Fn() -> S, want: &[u8]) -> Case {
        let mut e = Utf8Encoder::<S>::new();
        if !e.is_idle() || e.exact_requiring_bytes() != 0 {
            return Err("fresh encoder is busy".into());
        }
        if ch.pick_bool() {
            let b = e.encode_into_bytes(f()).map_err(|e| format!("{:?}", e.kind()))?;
            ch.step();
            return if b == want { Ok(()) } else { Err(format!("encode_into_bytes gave {}", hex(&b))) };
        }
        e.start_encoding(f()).map_err(|e| format!("{:?}", e.kind()))?;
        if e.exact_requiring_bytes() != want.len() as u64 {
            return Err(format!("{} bytes announced of {}", e.exact_requiring_bytes(), want.len()));
        }
        if want.is_empty() {
            // idle at once or after the first call
            let r = e.encode(&mut [0; 2], Eos::new(true));
            ch.step();
            if r.as_ref().ok() != Some(&0) || !e.is_idle() {
                return Err(format!("empty string: {}", res(&r)));
            }
        } else {
            let eos = ch.pick(want.len() + 2).checked_sub(1);
            if !drain(ch, &mut e, want, 6, eos, Some(f))? {
                return Ok(());
            }
        }
        // the next string
        e.start_encoding(f()).map_err(|e| format!("second: {:?}", e.kind()))?;
        let mut out = vec![];
        e.encode_all(&mut out).map_err(|e| format!("second: {:?}", e.kind()))?;
        if out != want {
            return Err(format!("second item encoded as {}", hex(&out)));
        }
        Ok(())
    }
    let w = s.clone().into_bytes();
    let leaked: &str = &s;
    match ty {
        0 => go::<String>(ch, &|| s.clone(), &w)?,
        1 => go::<&str>(ch, &|| leaked, &w)?,
        2 => go::<Box<str>>(ch, &|| s.clone().into(), &w)?,
        3 => go::<std::rc::Rc<str>>(ch, &|| s.clone().into(), &w)?,
        _ => go::<std::borrow::Cow<str>>(ch, &|| leaked.into(), &w)?,
    }
    ch.outcome(&s);
    ch.valid();
    Ok(())
}
/// A text of n bytes with a character (or a faulty byte) ending at or crossing a position.
fn big_text(ch: &mut Ch, n: usize) -> Option<Vec<u8>> {
    let mut v = vec![b'a'; n];
    let seqs: [&[u8]; 8] = [b"", "é".as_bytes(), "€".as_bytes(), "𐍈".as_bytes(), b"\xFF", b"\xE2\x82", b"\x80", b"\xED\xA0\x80"];
    let s = *ch.of(&seqs);
    let spots: Vec<usize> = [0, 255, 256, 1023, 1024, 4095, 4096, 8191, 8192, 65535, 65536, n].iter().copied().filter(|p| *p <= n).collect();
    let p = *ch.of(&spots);
    let back = ch.pick(4);
    if s.is_empty() && (p != 0 || back != 0) {
        return None;
    }
    let at = p.checked_sub(back)?;
    if at + s.len() > n {
        return None;
    }
    v[at..at + s.len()].copy_from_slice(s);
    Some(v)
}
fn text_ladder(ch: &mut Ch, n: usize) -> Case {
    let Some(v) = big_text(ch, n) else { return ch.skip() };
    let r = match ch.pick(5) {
        0 => Utf8Decoder::new().decode_exact(&v[..]),
        1 => Utf8Decoder::new().decode_from_bytes(&v),
        2 => Utf8Decoder::with_bytes_decoder(BytesDecoder::new(vec![0; n])).decode_exact(&v[..]),
        k => {
            let size = [1000, 1024][k - 3];
            let mut d = Utf8Decoder::new();
            let mut r = Ok(0);
            let mut rest = &v[..];
            while r.is_ok() && !d.is_idle() {
                let c = rest.len().min(size);
                r = d.decode(&rest[..c], Eos::new(c == rest.len()));
                ch.step();
                rest = &rest[c..];
            }
            r.and_then(|_| d.finish_decoding())
        }
    };
    ch.steps(1);
    ch.state(&(n, fx(&v)));
    judge(ch, &v, r)
}
fn enc_ladder(ch: &mut Ch, n: usize) -> Case {
    let Some(v) = big_text(ch, n) else { return ch.skip() };
    let Ok(s) = String::from_utf8(v.clone()) else { return ch.skip() };
    let mut e = Utf8Encoder::<String>::new();
    if n > 0 {
        e.start_encoding(s.clone()).map_err(|e| format!("{:?}", e.kind()))?;
        drain(ch, &mut e, &v, 0, None, Some(&|| "x".into()))?;
    }
    let mut out = vec![];
    e.start_encoding(s).map_err(|e| format!("{:?}", e.kind()))?;
    e.encode_all(&mut out).map_err(|e| format!("{:?}", e.kind()))?;
    ch.steps(1);
    if out != v {
        return Err(format!("encode_all wrote {} bytes instead of {n}", out.len()));
    }
    ch.outcome(&n);
    ch.valid();
    Ok(())
}

// ---------------------------------------------------------------- padding

struct PadModel {
    expect: Option<u8>,
    eos: bool,
}
/// One call; `Ok(true)`: the stream was refused.
fn pad_call(ch: &mut Ch, d: &mut PaddingDecoder, m: &mut PadModel, buf: &[u8], eos: Eos) -> Result<bool, String> {
    let r = d.decode(buf, eos);
    ch.step();
    ch.log(|| format!("decode({}, {eos:?}) -> {}", hex(buf), res(&r)));
    if d.expected_byte() != m.expect {
        return Err(format!("expected_byte() = {:?}, set to {:?}", d.expected_byte(), m.expect));
    }
    let bad = !m.eos && m.expect.is_some_and(|e| buf.iter().any(|b| *b != e));
    if bad {
        return match r {
            Err(e) if *e.kind() == ErrorKind::InvalidInput => Ok(true),
            r => Err(format!("deviating byte in {} (expected {:?}): {}", hex(buf), m.expect, res(&r))),
        };
    }
    let n = if m.eos { 0 } else { buf.len() };
    if r.as_ref().ok() != Some(&n) {
        return Err(format!("{} (expected {:?}, ended={}): {}", hex(buf), m.expect, m.eos, res(&r)));
    }
    m.eos |= eos.is_reached();
    pad_look(d, m)?;
    Ok(false)
}
fn pad_look(d: &PaddingDecoder, m: &PadModel) -> Case {
    let w = if m.eos { ByteCount::Finite(0) } else { ByteCount::Infinite };
    if d.is_idle() != m.eos || d.requiring_bytes() != w {
        return Err(format!("idle={} requiring={}, ended={}", d.is_idle(), bc(d.requiring_bytes()), m.eos));
    }
    Ok(())
}
fn pad_take(ch: &mut Ch, d: &mut PaddingDecoder, m: &mut PadModel) -> Case {
    let r = d.finish_decoding();
    ch.step();
    match (&r, m.eos) {
        (Ok(()), true) => m.eos = false,
        (Err(e), false) if *e.kind() == ErrorKind::IncompleteDecoding => {}
        _ => return Err(format!("finish_decoding with ended={}: {}", m.eos, res(&r))),
    }
    pad_look(d, m)
}
fn pad_dec(ch: &mut Ch, expect: Option<u8>, max: usize) -> Case {
    let mut d = PaddingDecoder::new(expect);
    let mut m = PadModel { expect, eos: false };
    let e = expect.unwrap_or(5);
    let alpha = [e, e ^ 1, !e, e.wrapping_add(0x80)];
    let deep = matches!(expect, None | Some(0) | Some(0xFF) | Some(7));
    pad_look(&d, &m)?;
    for round in 0..2 {
        let max = if round == 1 { 1 } else if deep { max } else { max - 1 };
        let n = ch.pick(max + 1);
        let v: Vec<u8> = (0..n).map(|_| *ch.of(&alpha)).collect();
        let mode = ch.pick(3);
        let mut off = 0;
        loop {
            let rest = n - off;
            let k = if rest == 0 { 0 } else { rest - ch.pick(rest) };
            let eos = match mode {
                0 => Eos::new(k == rest),
                1 => Eos::new(rest == 0),
                _ => finite((rest - k) as u64),
            };
            ch.state(&(round, n, off, k, mode));
            if pad_call(ch, &mut d, &mut m, &v[off..off + k], eos)? {
                ch.outcome(&(expect.is_some(), round, 0));
                ch.valid();
                return Ok(());
            }
            off += k;
            if m.eos {
                break;
            }
            pad_take(ch, &mut d, &mut m)?;
        }
        // offered after the end
        for b in [&[e ^ 1, 3][..], &[]] {
            for x in [Eos::new(false), Eos::new(true), finite(4)] {
                pad_call(ch, &mut d, &mut m, b, x)?;
            }
        }
        pad_take(ch, &mut d, &mut m)?;
        pad_take(ch, &mut d, &mut m)?;
        if round == 0 {
            // another byte for the next item, also while it is being read
            m.expect = *ch.of(&[expect, None, Some(e ^ 1)]);
            d.set_expected_byte(m.expect);
            pad_look(&d, &m)?;
        }
    }
    ch.outcome(&(expect.is_some(), 2, 1));
    ch.valid();
    Ok(())
}
/// Any byte where another one is expected; the byte changed in between.
fn pad_any(ch: &mut Ch, e: u8) -> Case {
    let b = ch.pick(256) as u8;
    let at = ch.pick(4);
    let cut = ch.pick(2);
    let mut d = if ch.pick_bool() {
        PaddingDecoder::new(Some(e))
    } else {
        let mut d = PaddingDecoder::default();
        d.set_expected_byte(Some(e));
        d
    };
    let mut m = PadModel { expect: Some(e), eos: false };
    let mut v = [e; 4];
    v[at] = b;
    if pad_call(ch, &mut d, &mut m, &v[..2 * cut], Eos::new(false))? {
        return Ok(());
    }
    if cut == 1 && at < 2 {
        // from here on the other byte
        m.expect = Some(b);
        d.set_expected_byte(m.expect);
        v = [b; 4];
    }
    let refused = pad_call(ch, &mut d, &mut m, &v[2 * cut..], Eos::with_remaining_bytes(ByteCount::Finite(0)))?;
    ch.outcome(&(refused, at));
    ch.valid();
    Ok(())
}
fn pad_enc(ch: &mut Ch, byte: u8, calls: usize) -> Case {
    let mut e = PaddingEncoder::new();
    let mut cur: Option<u8> = None;
    let look = |e: &PaddingEncoder, cur: Option<u8>| {
        let w = if cur.is_some() { ByteCount::Infinite } else { ByteCount::Finite(0) };
        if e.is_idle() != cur.is_none() || e.requiring_bytes() != w {
            return Err(format!("item {cur:?}: idle={} requiring={}", e.is_idle(), bc(e.requiring_bytes())));
        }
        Ok(())
    };
    look(&e, cur)?;
    let mut items = 0;
    for i in 0..calls {
        // start, or encode
        let k = if i == 0 { 0 } else { ch.pick(17) };
        if k == 0 {
            let b = if items == 0 { byte } else { !byte };
            let r = e.start_encoding(b);
            ch.step();
            match (&r, cur) {
                (Ok(()), None) => {
                    cur = Some(b);
                    items += 1;
                }
                (Err(x), Some(_)) if *x.kind() == ErrorKind::EncoderFull => {}
                _ => return Err(format!("start with item {cur:?}: {}", res(&r))),
            }
        } else {
            let (n, eos) = ((k - 1) / 4, [Eos::new(false), Eos::new(true), finite(2), Eos::with_remaining_bytes(ByteCount::Infinite)][(k - 1) % 4]);
            let mut buf = vec![0x5A ^ byte; n];
            let r = e.encode(&mut buf, eos);
            ch.step();
            ch.state(&(i, cur, n, eos.is_reached()));
            ch.log(|| format!("encode({n}, {eos:?}) with {cur:?} -> {} {buf:?}", res(&r)));
            let w = if cur.is_some() { n } else { 0 };
            if r.as_ref().ok() != Some(&w) || buf.iter().any(|b| *b != cur.unwrap_or(0x5A ^ byte)) {
                return Err(format!("encode({n}, {eos:?}) of item {cur:?}: {} {buf:?}", res(&r)));
            }
            if eos.is_reached() {
                cur = None;
            }
        }
        look(&e, cur)?;
    }
    ch.outcome(&(items, cur.is_some()));
    ch.valid();
    Ok(())
}
/// Padding fills what is left of a frame.
fn pad_frames(ch: &mut Ch) -> Case {
    let n = ch.pick(6);
    let b = *ch.of(&[0, 7, 0xFF]);
    let size = 1 + ch.pick(3);
    let kind = ch.pick(4);
    let mut out: Vec<u8> = vec![];
    fn run<E: Encode>(ch: &mut Ch, e: &mut E, size: usize, out: &mut Vec<u8>) -> Case {
        for _ in 0..20 {
            if e.is_idle() {
                return Ok(());
            }
            let mut buf = vec![0xEE; size];
            let k = e.encode(&mut buf, Eos::new(false)).map_err(|e| format!("{:?}", e.kind()))?;
            ch.step();
            out.extend(&buf[..k]);
        }
        Err("the frame is never complete".into())
    }
    let fail = |e: bytecodec::Error| format!("{:?}", e.kind());
    let w: Vec<u8> = match kind {
        0 => {
            let mut e = PaddingEncoder::new().length(n as u64);
            for _ in 0..2 {
                e.start_encoding(b).map_err(fail)?;
                run(ch, &mut e, size, &mut out)?;
            }
            vec![b; 2 * n]
        }
        1 => {
            // a number, padded to the length of the frame
            let mut e = bytecodec::fixnum::U8Encoder::new().chain(PaddingEncoder::new()).length(n as u64 + 1);
            e.start_encoding((0x21, b)).map_err(fail)?;
            run(ch, &mut e, size, &mut out)?;
            e.start_encoding((0x22, b ^ 1)).map_err(fail)?;
            run(ch, &mut e, size, &mut out)?;
            let mut w = vec![0x21];
            w.extend(vec![b; n]);
            w.push(0x22);
            w.extend(vec![b ^ 1; n]);
            w
        }
        2 => {
            let mut e = Utf8Encoder::<&str>::new().chain(PaddingEncoder::new()).length(n as u64 + 2);
            let mut wb = WriteBuf::new(vec![0; size]);
            e.start_encoding(("é", b)).map_err(fail)?;
            for _ in 0..20 {
                e.encode_to_write_buf(&mut wb).map_err(fail)?;
                wb.flush(&mut out).map_err(fail)?;
                ch.step();
            }
            let mut w = "é".as_bytes().to_vec();
            w.extend(vec![b; n]);
            w
        }
        _ => {
            let mut e = PaddingEncoder::new().length(n as u64);
            out = e.encode_into_bytes(b).map_err(fail)?;
            vec![b; n]
        }
    };
    ch.state(&(kind, n, size, b));
    if out != w {
        return Err(format!("kind {kind}, frame of {n}, buffers of {size}: {}, expected {}", hex(&out), hex(&w)));
    }
    ch.outcome(&w);
    ch.valid();
    Ok(())
}
/// A padded frame followed by more.
fn pad_framed_dec(ch: &mut Ch) -> Case {
    let n = ch.pick(5);
    let e = *ch.of(&[None, Some(0u8), Some(9)]);
    let v: Vec<u8> = (0..n).map(|_| *ch.of(&[0u8, 9])).collect();
    let ok = e.is_none_or(|e| v.iter().all(|b| *b == e));
    let mut all = vec![b'<'];
    all.extend(&v);
    all.push(b'>');
    let mut d = bytecodec::fixnum::U8Decoder::new()
        .chain(PaddingDecoder::new(e).length(n as u64))
        .chain(bytecodec::fixnum::U8Decoder::new());
    let mut off = 0;
    let mut r = Ok(0);
    while r.is_ok() && !d.is_idle() && off < all.len() {
        let rest = all.len() - off;
        let k = rest - ch.pick(rest);
        r = d.decode(&all[off..off + k], Eos::new(k == rest));
        ch.step();
        off += k;
    }
    let r = r.and_then(|_| d.finish_decoding());
    ch.outcome(&(n, ok));
    ch.valid();
    match (&r, ok) {
        (Ok(((b'<', ()), b'>')), true) => Ok(()),
        (Err(x), false) if *x.kind() == ErrorKind::InvalidInput => Ok(()),
        _ => Err(format!("frame {} with expected byte {e:?}: {}", hex(&v), res(&r))),
    }
}
fn pad_ladder(ch: &mut Ch, n: usize) -> Case {
    let spots: Vec<usize> = [0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 255, 256, 1023, 1024, 2048, 4096, 8192, 16_384, 65_536, 131_072, 1 << 20, n / 2, n.wrapping_sub(2), n.wrapping_sub(1)]
        .iter()
        .copied()
        .filter(|p| *p < n)
        .collect();
    let dev = ch.pick(spots.len() + 1).checked_sub(1).map(|i| spots[i]);
    let mut v = vec![7u8; n];
    if let Some(p) = dev {
        v[p] = 8;
    }
    match ch.pick(3) {
        0 => {
            let r = PaddingDecoder::new(Some(7)).decode_exact(&v[..]);
            ch.step();
            match (&r, dev) {
                (Ok(()), None) => {}
                (Err(e), Some(_)) if *e.kind() == ErrorKind::InvalidInput => {}
                _ => return Err(format!("{n} bytes, deviation {dev:?}: {}", res(&r))),
            }
        }
        1 => {
            let r = PaddingDecoder::new(None).decode_exact(&v[..]);
            ch.step();
            if r.is_err() {
                return Err(format!("{n} bytes, anything goes: {}", res(&r)));
            }
        }
        _ => {
            let size = *ch.of(&[1000, 1024, n.max(1)]);
            let mut d = PaddingDecoder::new(Some(7));
            let mut m = PadModel { expect: Some(7), eos: false };
            let mut at = 0;
            let mut refused = false;
            while !m.eos && !refused {
                let k = (n - at).min(size);
                refused = pad_call(ch, &mut d, &mut m, &v[at..at + k], Eos::new(at + k == n))?;
                at += k;
            }
            if refused != dev.is_some() {
                return Err(format!("{n} bytes, deviation {dev:?}, refused={refused}"));
            }
            // and the encoder
            let mut e = PaddingEncoder::new();
            e.start_encoding(9).map_err(|e| format!("{:?}", e.kind()))?;
            let mut buf = vec![0; n];
            for (c, eos) in [(&mut buf[..n / 2], false), (&mut vec![0; n][..], true)] {
                let want = c.len();
                let r = e.encode(c, Eos::new(eos));
                ch.step();
                if r.as_ref().ok() != Some(&want) || c.iter().any(|b| *b != 9) || e.is_idle() != eos {
                    return Err(format!("padding of {want} bytes: {}, idle={}", res(&r), e.is_idle()));
                }
            }
        }
    }
    ch.state(&(n, dev));
    ch.outcome(&dev.is_some());
    ch.valid();
    Ok(())
}
