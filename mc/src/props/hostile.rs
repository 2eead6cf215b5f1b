//! C22: malformed, truncated and absurd input; lying announcements of the end of the stream.
//! Every execution runs under a counting allocator; calls that never return are caught by the watchdog.
use crate::core::*;
use crate::drive::{self, finite};
use crate::dterm::{self, bx, Next, D};
use crate::fix;
use crate::props::{io as pio, scale};
use crate::val::*;
use bytecodec::bincode_codec::BincodeDecoder;
use bytecodec::bytes::*;
use bytecodec::fixnum::*;
use bytecodec::io::*;
use bytecodec::json_codec::JsonDecoder;
use bytecodec::{ByteCount, Decode, DecodeExt, Eos, ErrorKind};
use std::cell::Cell;
use std::rc::Rc;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::io::Read;

const BASE: usize = 64 << 10;
const PER_BYTE: usize = 256;

/// Fails if more was allocated than the bytes received so far justify.
fn within(mark: isize, received: usize) -> Case {
    within_base(mark, received, BASE)
}
/// serde reserves up to 1 MiB for a sequence, whatever the length announced.
const SERDE: usize = 4 << 20;
fn within_base(mark: isize, received: usize, base: usize) -> Case {
    let (peak, max) = alloc_since(mark);
    let limit = base + PER_BYTE * received;
    if peak > limit || max > limit {
        return Err(format!("{peak} bytes allocated (largest request {max}) for {received} received"));
    }
    Ok(())
}

pub fn c22(th: bool, b: &mut Vec<String>) -> Vec<Unit> {
    b.push(format!("allocation bound: {BASE} + {PER_BYTE} x received bytes (4 MiB + for serde formats)"));
    b.push("every decoder term up to depth 2 and every combinator with maximal parameters: streams of up to 3 bytes, up to 3 (4) calls of any size, each with any of 6 announcements of the end, true or not; up to two calls after a failure or an item".into());
    b.push("length, count, limit and text frames behind headers of 2 to 8 bytes holding every power of two -1/+0/+1: bodies of 0..=3 and 3000 bytes, 4 chunkings, 6 ways of announcing the end, and both drivers".into());
    b.push("bincode decoders of 12 types: length prefixes at every power of two -1/+0/+1 at every prefix position; JSON: nesting and lengths on a ladder up to 20000".into());
    b.push("size ladder: every ladder term fed with constant bytes (0, 0x22, 0x5B, 0x80, 0xFF) in chunks of 1, 7, 1024 and all bytes".into());
    let mut us = vec![];
    let mut ts = pio::shallow_d();
    let few = dterm::few_leaves();
    let huge: Vec<D> = few.iter().flat_map(extremes).collect();
    for h in &huge {
        ts.extend(dterm::unary(h));
        ts.push(D::Tup(vec![h.clone(), h.clone()]));
        ts.push(D::Tup(vec![h.clone(), D::Fix(fix::U16BE)]));
        ts.push(D::Tup(vec![h.clone(), h.clone(), h.clone(), h.clone()]));
    }
    ts.extend(huge);
    if th {
        ts.extend(dterm::terms(false));
    }
    // inherent: a count of items that take no bytes
    ts.retain(|t| !dterm::any(t, &|d| matches!(d, D::CollectN(n, d) if *n > 1000 && (zero_sized(d) || dterm::until_eos(d)))));
    let calls = 3 + usize::from(th);
    b.push("the same terms decoding one stream of up to 2 bytes 40 times over".into());
    for t in &ts {
        let t = t.clone();
        us.push(unit(format!("again {t:?}"), move |ch| again(ch, &t)));
    }
    for t in ts {
        us.push(unit(format!("wild {t:?}"), move |ch| wild(ch, &t, calls)));
    }
    b.push("items taking 0, 1 or 2 bytes in any order of up to 4 (5), ready at once or after a call, collected to the end (plainly, in a frame, counted, for a second stream): streams of up to 5 (6) bytes, every chunking with up to 1 (2) empty chunks, 4 ways of announcing the end".into());
    for n in 1..=4 + usize::from(th) {
        for kind in 0..KINDS.len() {
            us.push(unit(format!("item sizes {n} {}", KINDS[kind]), move |ch| item_sizes(ch, n, kind, th)));
        }
    }
    for w in 2..=8usize {
        for k in 0..BODIES.len() {
            us.push(unit(format!("header {w} {}", BODIES[k]), move |ch| header(ch, w, k, false)));
            us.push(unit(format!("drivers header {w} {}", BODIES[k]), move |ch| header(ch, w, k, true)));
        }
    }
    macro_rules! binc {
        ($($t:ty),*) => {$( us.push(unit(format!("bincode {}", stringify!($t)), |ch| bincode::<$t>(ch))); )*};
    }
    binc!(Vec<u8>, String, Vec<u64>, Vec<Vec<u8>>, Vec<String>, HashMap<u64, String>, BTreeMap<String, u8>, Option<Vec<u8>>, (u8, Vec<u16>), VecDeque<u32>, Vec<(u8, String)>, Box<[u16]>);
    for n in scale::ladder(false) {
        if n <= 20_000 {
            us.push(unit(format!("json {n}"), move |ch| json(ch, n)));
        }
        us.push(unit(format!("ladder {n}"), move |ch| ladder(ch, n)));
    }
    us
}
fn zero_sized(d: &D) -> bool {
    match d {
        D::Null | D::Arr(0) | D::Once(0) | D::Omit(true, _) | D::CollectN(0, _) | D::Length(0, _) => true,
        D::Tup(ds) => ds.iter().all(zero_sized),
        D::Map(d) | D::TryMap(d) | D::MapErr(_, d) | D::Omit(_, d) | D::Max(_, d) | D::Slice(d) | D::Peek(d) | D::Maybe(d) | D::Boxed(d)
        | D::CollectN(_, d) | D::Utf8With(d) => zero_sized(d),
        D::AndThen(a, Next::Sel(x, _)) => zero_sized(a) && zero_sized(x),
        D::AndThen(a, _) => zero_sized(a),
        _ => false,
    }
}
/// Every combinator with extreme parameters.
fn extremes(d: &D) -> Vec<D> {
    let mut v = vec![];
    for n in [u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32, 1 << 20] {
        v.push(D::Length(n, bx(d.clone())));
        v.push(D::Max(n, bx(d.clone())));
        v.push(D::CollectN(n as usize, bx(d.clone())));
    }
    v.retain(dterm::well_formed);
    v
}
fn wild_eos(ch: &mut Ch) -> Eos {
    match ch.pick(6) {
        0 => Eos::new(true),
        1 => Eos::new(false),
        2 => finite(1),
        3 => finite(1 << 33),
        4 => finite(u64::MAX),
        _ => Eos::with_remaining_bytes(ByteCount::Infinite),
    }
}
fn wild(ch: &mut Ch, t: &D, calls: usize) -> Case {
    let alpha: &[u8] = if dterm::any(t, &|d| *d == D::Json) {
        b"[\"1"
    } else if dterm::text(t) {
        &[0x61, 0xC3, 0xFF]
    } else if dterm::value_dependent(t) {
        &[2, 0xFF, 0]
    } else {
        &[]
    };
    let inp = drive::pick_input(ch, alpha, 3);
    let mut d = dterm::build(t);
    let mark = alloc_mark();
    let mut off = 0;
    let mut failed = 0;
    for _ in 0..calls {
        let rest = inp.len() - off;
        let n = rest - ch.pick(rest + 1);
        let eos = wild_eos(ch);
        let _ = d.requiring_bytes();
        let was = d.is_idle();
        let r = d.decode(&inp[off..off + n], eos);
        ch.step();
        ch.log(|| format!("decode({n}, {eos:?}) -> {}", res(&r)));
        let idle = d.is_idle();
        let _ = d.requiring_bytes();
        ch.state(&(off, n, r.is_ok(), idle, failed, fx(&inp)));
        within(mark, off + n)?;
        match r {
            Err(_) => {
                failed += 1;
                off += n;
                if failed == 2 {
                    break;
                }
                let _ = d.finish_decoding();
            }
            Ok(s) => {
                if s > n {
                    return Err(format!("{s} of {n} bytes consumed ({t:?})"));
                }
                if failed == 0 && !was && !idle && n > 0 && s == 0 {
                    return Err(format!("no progress on {n} bytes ({t:?}, {})", hex(&inp)));
                }
                off += s;
                if idle {
                    let r = d.finish_decoding();
                    ch.step();
                    ch.log(|| format!("finish -> {}", res(&r)));
                    within(mark, off)?;
                } else if let Ok(v) = d.finish_decoding() {
                    if failed == 0 {
                        return Err(format!("unfinished decoder returned {v:?} ({t:?})"));
                    }
                }
            }
        }
    }
    ch.outcome(&(off, failed));
    ch.valid();
    Ok(())
}

/// One decoder for many items: memory does not build up from item to item.
fn again(ch: &mut Ch, t: &D) -> Case {
    let alpha: &[u8] = if dterm::text(t) || dterm::any(t, &|d| *d == D::Json) { &[0x31, 0xC3] } else { &[1, 0] };
    let inp = drive::pick_input(ch, alpha, 2);
    let ended = ch.pick_bool();
    let mut d = dterm::build(t);
    let mark = alloc_mark();
    let mut received = 0;
    let (mut items, mut failed) = (0, 0);
    for _ in 0..40 {
        let r = d.decode(&inp, Eos::new(ended));
        received += inp.len();
        ch.step();
        within(mark, received)?;
        match r {
            Ok(_) if d.is_idle() => {
                let _ = d.finish_decoding();
                items += 1;
            }
            Ok(_) => {}
            Err(_) => failed += 1,
        }
        if failed == 3 {
            break;
        }
        within(mark, received)?;
    }
    ch.outcome(&(items, failed));
    ch.valid();
    Ok(())
}

// ---------------------------------------------------------------- items that take no bytes

const KINDS: [&str; 4] = ["collect", "collect in a frame", "collect in a tuple", "collectn"];
const ENDLESS: usize = 2000;

/// Yields the size of its item; the sizes follow a pattern.
struct Sizes {
    pattern: Vec<usize>,
    at: usize,
    got: usize,
    /// An item is complete (an empty one without any call, if `eager`).
    ready: bool,
    eager: bool,
    calls: Rc<Cell<usize>>,
}
impl Sizes {
    fn want(&self) -> usize {
        self.pattern[self.at % self.pattern.len()]
    }
    fn spin(&self) -> bool {
        self.calls.set(self.calls.get() + 1);
        self.calls.get() > ENDLESS
    }
}
impl Decode for Sizes {
    type Item = usize;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        if self.spin() {
            return Err(bytecodec::Error::from(ErrorKind::InconsistentState));
        }
        if self.is_idle() {
            return Ok(0);
        }
        let n = buf.len().min(self.want() - self.got);
        self.got += n;
        self.ready = self.got == self.want();
        if !self.ready && eos.is_reached() {
            return Err(bytecodec::Error::from(ErrorKind::UnexpectedEos));
        }
        Ok(n)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<usize> {
        if self.spin() {
            return Err(bytecodec::Error::from(ErrorKind::InconsistentState));
        }
        if !self.is_idle() {
            return Err(bytecodec::Error::from(ErrorKind::IncompleteDecoding));
        }
        let n = self.want();
        self.ready = false;
        self.got = 0;
        self.at += 1;
        Ok(n)
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(if self.is_idle() { 0 } else { (self.want() - self.got) as u64 })
    }
    fn is_idle(&self) -> bool {
        self.ready || self.eager && self.want() == 0
    }
}
fn item_sizes(ch: &mut Ch, n: usize, kind: usize, th: bool) -> Case {
    let pattern: Vec<usize> = (0..n).map(|_| ch.pick(3)).collect();
    let eager = pattern.contains(&0) && ch.pick_bool();
    let len = ch.pick(6 + usize::from(th));
    let mode = ch.pick(4);
    let calls = Rc::new(Cell::new(0));
    let inner = Sizes { pattern: pattern.clone(), at: 0, got: 0, ready: false, eager, calls: calls.clone() };
    let mut d: Box<dyn Decode<Item = Vec<usize>>> = match kind {
        0 => Box::new(inner.collect::<Vec<_>>()),
        1 => Box::new(inner.collect::<Vec<_>>().length(len as u64)),
        2 => Box::new(bytecodec::tuple::TupleDecoder::new((U8Decoder::new(), inner.collect::<Vec<_>>())).map(|t: (u8, Vec<usize>)| t.1)),
        _ => Box::new(inner.collectn::<Vec<_>>(3)),
    };
    ch.log(|| format!("items of {pattern:?} bytes (eager: {eager}), {} over {len} bytes, mode {mode}", KINDS[kind]));
    let data = [7u8; 8];
    let pre = usize::from(kind == 2);
    let (mut off, mut empties) = (0usize, 1 + usize::from(th));
    let mut announced;
    // what has to come of it
    let mut at = 0usize;
    let mut want = vec![];
    let mut left = len.saturating_sub(pre);
    let expect: Result<(), ErrorKind> = loop {
        let s = pattern[want.len() % n];
        if kind == 3 && want.len() == 3 || kind != 3 && left == 0 {
            break Ok(());
        }
        if s == 0 && kind != 3 {
            break Err(ErrorKind::Other);
        }
        if s > left {
            break Err(ErrorKind::UnexpectedEos);
        }
        left -= s;
        at += s;
        want.push(s);
    };
    let expect = if pre > len { Err(ErrorKind::UnexpectedEos) } else { expect };
    loop {
        let rest = len - off;
        let k = if empties > 0 && ch.pick_bool() {
            empties -= 1;
            0
        } else {
            rest - ch.pick(rest.max(1))
        };
        let eos = match mode {
            0 => Eos::new(k == rest),
            1 => Eos::new(rest == 0),
            2 => finite((rest - k) as u64),
            _ => Eos::with_remaining_bytes(if k == rest { ByteCount::Finite(0) } else { ByteCount::Infinite }),
        };
        announced = eos.is_reached();
        calls.set(0);
        let r = d.decode(&data[..k], eos);
        ch.step();
        ch.log(|| format!("decode({k} bytes, {eos:?}) -> {} after {} inner calls", res(&r), calls.get()));
        ch.state(&(off, k, announced, pattern.clone(), kind, len));
        if calls.get() > ENDLESS {
            return Err(format!("endless loop over items that take no bytes: {pattern:?}"));
        }
        match r {
            Err(e) => {
                // the frame sees its end together with the bytes
                return match expect {
                    Err(x) if x == *e.kind() => {
                        ch.valid();
                        Ok(())
                    }
                    _ => Err(format!("failed with {:?}, expected {expect:?} {want:?}", e.kind())),
                };
            }
            Ok(s) => {
                if s > k {
                    return Err(format!("{s} of {k} bytes consumed"));
                }
                off += s;
                if d.is_idle() {
                    let v = d.finish_decoding().map_err(|e| format!("finishing failed with {:?}", e.kind()))?;
                    return match expect {
                        Ok(()) if v == want && off == at + pre => {
                            ch.valid();
                            Ok(())
                        }
                        _ => Err(format!("{v:?} from {off} bytes, expected {expect:?} {want:?}")),
                    };
                }
                if s < k {
                    return Err(format!("unfinished decoder left {} of {k} bytes", k - s));
                }
                if announced {
                    return Err(format!("still unfinished at the end of the stream, expected {expect:?} {want:?}"));
                }
            }
        }
    }
}

// ---------------------------------------------------------------- absurd lengths

type BU = Box<dyn Decode<Item = ()>>;
const BODIES: [&str; 13] = [
    "remaining bytes of that length",
    "text of that length",
    "that many bytes",
    "that many 32 bit numbers",
    "numbers until the end of that length",
    "that many, in that length",
    "at most that many",
    "length and that many, peekable, sliced",
    "two such lengths",
    "that many texts of that length",
    "copyable bytes in that length",
    "JSON of that length",
    "padding of that length",
];
fn hdr(w: usize) -> Box<dyn Decode<Item = u64>> {
    match w {
        2 => Box::new(U16beDecoder::new().map(u64::from)),
        3 => Box::new(U24leDecoder::new().map(u64::from)),
        4 => Box::new(U32beDecoder::new().map(u64::from)),
        5 => Box::new(U40beDecoder::new()),
        6 => Box::new(U48leDecoder::new()),
        7 => Box::new(U56beDecoder::new()),
        _ => Box::new(U64beDecoder::new()),
    }
}
fn hdr_bytes(w: usize, n: u64) -> Vec<u8> {
    let f = fix::FIXES.iter().find(|f| f.width == w && !f.signed && !f.float && f.little == (w == 3 || w == 6)).unwrap();
    fix::model_write(*f, n).unwrap()
}
fn body(w: usize, k: usize) -> BU {
    fn un<T>(_: T) {}
    let rest = RemainingBytesDecoder::new;
    let h = hdr(w);
    match k {
        0 => Box::new(h.and_then(move |n| rest().length(n)).map(un)),
        1 => Box::new(h.and_then(|n| Utf8Decoder::new().length(n)).map(un)),
        2 => Box::new(h.and_then(|n| U8Decoder::new().collectn::<Vec<u8>>(n as usize)).map(un)),
        3 => Box::new(h.and_then(|n| U32leDecoder::new().collectn::<Vec<u32>>(n as usize)).map(un)),
        4 => Box::new(h.and_then(|n| U16leDecoder::new().collect::<Vec<u16>>().length(n)).map(un)),
        5 => Box::new(h.and_then(|n| U8Decoder::new().collectn::<VecDeque<u8>>(n as usize).length(n)).map(un)),
        6 => Box::new(h.and_then(move |n| rest().max_bytes(n)).map(un)),
        7 => Box::new(
            h.and_then(move |n| {
                let mut s = U8Decoder::new().collectn::<Vec<u8>>(n as usize).peekable().slice();
                s.set_consumable_bytes(n);
                s
            })
            .map(un),
        ),
        8 => Box::new(h.and_then(move |n| (rest().length(n), rest().length(n)).pair()).map(un)),
        9 => Box::new(h.and_then(move |n| Utf8Decoder::with_bytes_decoder(rest().length(n)).collectn::<Vec<String>>((n as usize).max(1))).map(un)),
        10 => Box::new(h.and_then(|n| CopyableBytesDecoder::new([0u8; 16]).length(n)).map(un)),
        11 => Box::new(h.and_then(|n| JsonDecoder::<serde_json::Value>::new().length(n)).map(un)),
        _ => Box::new(h.and_then(|n| bytecodec::padding::PaddingDecoder::new(None).length(n)).map(un)),
    }
}
trait Pair: Sized {
    type D;
    fn pair(self) -> Self::D;
}
impl<A: Decode, B: Decode> Pair for (A, B) {
    type D = bytecodec::tuple::TupleDecoder<(A, B)>;
    fn pair(self) -> Self::D {
        bytecodec::tuple::TupleDecoder::new(self)
    }
}
fn pick_len(ch: &mut Ch, w: usize) -> u64 {
    let bits = 8 * w;
    let k = ch.pick(3 * bits + 1);
    let max = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    if k == 3 * bits {
        return max;
    }
    let p = 1u64 << (k / 3);
    [p - 1, p, p.saturating_add(1)][k % 3].min(max)
}
fn header(ch: &mut Ch, w: usize, kind: usize, driver: bool) -> Case {
    let n = pick_len(ch, w);
    // zero length texts: their number is not bounded by the input
    if kind == 9 && n == 0 {
        return ch.skip();
    }
    let len = *ch.of(&[3usize, 0, 1, 2, 3000]);
    let mut inp = hdr_bytes(w, n);
    inp.extend((0..len).map(|i| i as u8 & 0x7F));
    let mut d = body(w, kind);
    let mark = alloc_mark();
    if driver {
        return drivers(ch, &mut *d, &inp, mark, kind, n);
    }
    let chunk = *ch.of(&[usize::MAX, 1, 2, w]);
    let mode = ch.pick(6);
    let (mut off, mut items) = (0, 0);
    loop {
        let rest = inp.len() - off;
        let k = chunk.min(rest);
        let last = k == rest;
        let eos = match mode {
            0 => Eos::new(last),
            1 => Eos::new(rest == 0),
            2 => Eos::new(false),
            3 => finite((rest - k) as u64),
            // as if the announced length were true
            4 => finite(n.saturating_sub((off + k).saturating_sub(w) as u64).max(1)),
            _ => finite(u64::MAX),
        };
        let r = d.decode(&inp[off..off + k], eos);
        ch.step();
        let idle = d.is_idle();
        let _ = d.requiring_bytes();
        ch.log(|| format!("decode({k}, {eos:?}) -> {} idle={idle}", res(&r)));
        ch.state(&(off, n, r.is_ok(), idle, items));
        within(mark, off + k)?;
        let Ok(s) = r else { break };
        if s > k || (s == 0 && k > 0 && !idle) {
            return Err(format!("{s} of {k} bytes consumed ({}, {n})", BODIES[kind]));
        }
        off += s;
        if idle {
            let r = d.finish_decoding();
            ch.log(|| format!("finish -> {}", res(&r)));
            within(mark, off)?;
            items += 1;
            if items > inp.len() || r.is_err() {
                break;
            }
        } else if rest == 0 || (last && mode != 1) {
            break;
        }
    }
    ch.outcome(&(kind, items, off));
    ch.valid();
    Ok(())
}
struct Counting<'a> {
    data: &'a [u8],
    pos: usize,
    calls: usize,
}
impl Read for Counting<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls > 3 * self.data.len() + 20 {
            panic!("the driver keeps reading at end of stream");
        }
        let n = buf.len().min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
fn drivers(ch: &mut Ch, mut d: &mut dyn Decode<Item = ()>, inp: &[u8], mark: isize, kind: usize, n: u64) -> Case {
    let mut rd = Counting { data: inp, pos: 0, calls: 0 };
    match ch.pick(3) {
        0 => {
            let r = d.decode_exact(&mut rd);
            ch.step();
            ch.log(|| format!("decode_exact -> {}", res(&r)));
            within(mark, rd.pos)?;
            ch.outcome(&(kind, r.is_ok(), rd.pos));
        }
        1 => {
            let r = d.decode_from_bytes(inp);
            ch.step();
            ch.log(|| format!("decode_from_bytes -> {}", res(&r)));
            within(mark, inp.len())?;
            ch.outcome(&(kind, r.is_ok()));
        }
        _ => {
            let cap = *ch.of(&[1usize, 2, 7, 4096]);
            let mut b = ReadBuf::new(vec![0; cap]);
            let mut turns = 0;
            loop {
                turns += 1;
                if turns > 3 * inp.len() + 20 {
                    return Err(format!("endless decoding from a read buffer ({}, {n})", BODIES[kind]));
                }
                b.fill(&mut rd).map_err(|e| format!("fill: {:?}", e.kind()))?;
                let before = b.len();
                let r = d.decode_from_read_buf(&mut b);
                ch.step();
                within(mark, rd.pos + cap)?;
                if r.is_err() {
                    break;
                }
                if d.is_idle() {
                    if d.finish_decoding().is_err() {
                        break;
                    }
                } else if before > 0 && b.len() == before {
                    return Err(format!("no progress on {before} buffered bytes ({}, {n})", BODIES[kind]));
                }
                if b.is_empty() && b.stream_state().is_eos() {
                    break;
                }
            }
            ch.outcome(&(kind, turns));
        }
    }
    ch.state(&(n, inp.len()));
    ch.valid();
    Ok(())
}

// ---------------------------------------------------------------- serializers

fn bincode<T: for<'a> serde::Deserialize<'a> + std::fmt::Debug>(ch: &mut Ch) -> Case {
    // `at` bytes or prefixes of length one, then an absurd length, then a few bytes
    let mut inp = vec![];
    match ch.pick(4) {
        0 => {}
        1 => inp.push(1),
        2 => inp.extend(1u64.to_le_bytes()),
        _ => {
            inp.extend(2u64.to_le_bytes());
            inp.extend(1u64.to_le_bytes());
        }
    }
    let n = pick_len(ch, 8);
    inp.extend(n.to_le_bytes());
    inp.extend(vec![b'a'; [0, 1, 9, 3000][ch.pick(4)]]);
    let chunk = *ch.of(&[usize::MAX, 1, 8]);
    let late = ch.pick_bool();
    let mut d = BincodeDecoder::<T>::new();
    let mark = alloc_mark();
    let mut off = 0;
    loop {
        let k = chunk.min(inp.len() - off);
        let last = off + k == inp.len();
        let eos = Eos::new(if late { k == 0 } else { last });
        let r = d.decode(&inp[off..off + k], eos);
        ch.step();
        ch.log(|| format!("decode({k}, {eos:?}) -> {}", res(&r)));
        within_base(mark, off + k, SERDE)?;
        let Ok(s) = r else { break };
        if eos.is_reached() {
            if !d.is_idle() {
                return Err("neither item nor error at end of stream".into());
            }
            break;
        }
        if s != k {
            return Err(format!("{s} of {k} bytes consumed"));
        }
        off += s;
    }
    let r = d.finish_decoding();
    ch.outcome(&r.is_ok());
    ch.state(&(n, inp.len(), r.is_ok()));
    ch.valid();
    Ok(())
}
fn json(ch: &mut Ch, n: usize) -> Case {
    let docs: [(&str, &str, &str); 8] = [("", "[", ""), ("", "[", "]"), ("", "{\"a\":", ""), ("\"", "x", ""), ("\"", "\\u0041", "\""), ("", "9", ""), ("", " ", "1"), ("[", "1,", "")];
    let (a, r, z) = *ch.of(&docs);
    let inp = format!("{a}{}{}", r.repeat(n), if a == "\"" { z.to_string() } else { z.repeat(n) });
    let chunk = *ch.of(&[usize::MAX, 1, 1024]);
    let mut d = JsonDecoder::<serde_json::Value>::new();
    let mark = alloc_mark();
    let mut off = 0;
    while off < inp.len() || off == 0 {
        let k = chunk.min(inp.len() - off);
        let eos = Eos::new(off + k == inp.len());
        let r = d.decode(&inp.as_bytes()[off..off + k], eos);
        ch.step();
        within_base(mark, off + k, SERDE)?;
        if r.is_err() || k == 0 {
            break;
        }
        off += k;
    }
    let r = d.finish_decoding();
    ch.outcome(&r.is_ok());
    ch.state(&(n, r.is_ok()));
    ch.valid();
    Ok(())
}
fn ladder(ch: &mut Ch, n: usize) -> Case {
    let ts = scale::dterms(n);
    let (t, _) = &ts[ch.pick(ts.len())];
    if dterm::any(t, &|d| matches!(d, D::CollectN(_, d) if zero_sized(d))) {
        return ch.skip();
    }
    let byte = *ch.of(&[0u8, 0x22, 0x5B, 0x80, 0xFF]);
    let chunk = *ch.of(&[usize::MAX, 1024, 7, 1]);
    if n > 9000 && chunk < 1024 && byte != 0x22 {
        return ch.skip();
    }
    let inp = vec![byte; n];
    let mut d = dterm::build(t);
    let mark = alloc_mark();
    let (mut off, mut turns) = (0, 0);
    loop {
        turns += 1;
        if turns > 3 * n + 10 {
            return Err(format!("endless decoding ({t:?})"));
        }
        let k = chunk.min(n - off);
        let eos = Eos::new(k == 0);
        let r = d.decode(&inp[off..off + k], eos);
        let idle = d.is_idle();
        within(mark, off + k)?;
        let Ok(s) = r else { break };
        off += s;
        if idle {
            if d.finish_decoding().is_err() {
                break;
            }
            within(mark, off)?;
            // one-shot decoders, and decoders of no bytes, do not get further
            if s == 0 {
                break;
            }
        } else if s < k {
            return Err(format!("{s} of {k} bytes consumed ({t:?})"));
        }
        if k == 0 {
            break;
        }
    }
    ch.steps(turns as u64);
    ch.state(&(n, off));
    ch.outcome(&off);
    ch.valid();
    Ok(())
}
